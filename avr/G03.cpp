// device side of G03: options of the device by type
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint16_t m_v[8], m_r; }

template< typename F > inline uint16_t as_value( F f )
{
    // nothing returned: no reading
    if constexpr ( std20::is_same_v< decltype( f() ), void > ) { f(); return 0xbeef; }
    else return (uint16_t) f();
}
#define O( id, ns, T, addr, hi, lo ) struct opt_##id { static auto put( uint16_t v ) { return ns::set( ns::T( v ) ); } static uint16_t now() { return as_value( [] { return ns::current( ns::T{} ); } ); } };
#define N( id, ns, T, addr, hi, lo ) O( id, ns, T, addr, hi, lo )
#define L( id, s, c, addr, hi, lo ) struct opt_##id { static auto put( uint16_t v ) { return s; } static uint16_t now() { return as_value( [] { return c; } ); } };
#define D( id, s, c, addr, hi, lo ) L( id, s, c, addr, hi, lo )
#include "avr/mcu_options.hpp"
O( tc0_waveform, tc0::output, waveform, 0, 0, 0 )
O( tc1_waveform, tc1::output, waveform, 0, 0, 0 )
#undef O
#undef N
#undef L
#undef D
#define T( id, s, c, addr, b, d ) struct opt_##id { static auto put( uint16_t ) { return s; } static uint16_t now() { return as_value( [] { return c; } ); } };
#define S( id, c, addr, hi, lo ) struct opt_##id { static uint16_t now() { return as_value( [] { return c; } ); } };
#include "avr/mcu_tags.hpp"
#undef T
#undef S

#define FN extern "C" __attribute__((noinline,used)) void
#define O( id, ns, T, addr, hi, lo ) FN s_##id() { opt_##id::put( m_v[0] ); } FN c_##id() { m_r = opt_##id::now(); }
#define N( id, ns, T, addr, hi, lo ) O( id, ns, T, addr, hi, lo )
#define L( id, s, c, addr, hi, lo ) O( id, , , , , )
#define D( id, s, c, addr, hi, lo ) O( id, , , , , )
#define T( id, s, c, addr, b, d ) O( id, , , , , )
#define S( id, c, addr, hi, lo ) FN c_##id() { m_r = opt_##id::now(); }
#include "avr/mcu_options.hpp"
#include "avr/mcu_tags.hpp"
O( tc0_waveform, , , , , )
O( tc1_waveform, , , , , )
#undef S
#undef T

#undef O
#undef N
#undef L
#undef D

// named settings, one function each; numbered in order
static void set_of( mcu::atmega328::twi::protocol::status s ) { m_r = (uint16_t) s; }
#define V( id, e, v ) case __LINE__: { using namespace mcu::atmega328; name_##id( e ); } break;
#define O( id, ns, T, addr, hi, lo ) template< typename E > inline void name_##id( E e ) { ns::set( e ); }
#define N( id, ns, T, addr, hi, lo ) O( id, ns, T, addr, hi, lo )
#define L( id, s, c, addr, hi, lo ) template< typename E > inline void name_##id( E v ) { s; }
#define D( id, s, c, addr, hi, lo ) L( id, s, c, addr, hi, lo )
#include "avr/mcu_options.hpp"
O( tc0_waveform, tc0::output, waveform, 0, 0, 0 )
O( tc1_waveform, tc1::output, waveform, 0, 0, 0 )
inline void name_twi_status( twi::protocol::status s ) { set_of( s ); }
FN name( uint8_t line ) { switch ( line ) {
#include "avr/mcu_names.hpp"
} }

template< int... > struct seq {};
template< int N, int... I > struct make : make< N - 1, N - 1, I... > {};
template< int... I > struct make< 0, I... > { using type = seq< I... >; };
template< typename... F > struct types { static constexpr int size = sizeof...( F ); };
template< int I, typename L > struct at;
template< typename F, typename... R > struct at< 0, types<F,R...> > { using type = F; };
template< int I, typename F, typename... R > struct at< I, types<F,R...> > : at< I - 1, types<R...> > {};
template< typename L, int i > inline auto lazy() { return at<i,L>::type::put( m_v[i] ); }
template< typename L, int op > inline void pair_()
{
    constexpr int N = L::size, i = op / N, j = op % N;
    if constexpr ( i != j ) { lazy<L,i>(), lazy<L,j>(); }
}
template< typename L, int... I > inline void all( uint8_t kind, seq<I...> )
{
    if ( kind == 1 ) ( lazy<L,I>(), ... );
    else ( lazy<L,L::size - 1 - I>(), ... );
}
template< typename L, int... I > inline void pairs( uint8_t op, seq<I...> ) { ( ( op == I ? pair_<L,I>() : void() ), ... ); }
template< typename L > inline void run( uint8_t kind, uint8_t op )
{
    constexpr int N = L::size;
    if ( kind == 0 ) pairs<L>( op, typename make<N * N>::type{} );
    else all<L>( kind, typename make<N>::type{} );
}
#define X( n ) opt_##n
#define R( id, ... ) FN g_##id( uint8_t kind, uint8_t op ) { run< types< __VA_ARGS__ > >( kind, op ); }
#include "avr/mcu_options_groups.hpp"

// constants of the interface
FN constants()
{
    int i = 0;
    auto put = [&]( uint16_t v ) { m_v[i++] = v; };
    put( adc::conversion::result_min ); put( adc::conversion::result_max );
    put( tc1_pwm_on_a_pb1::value_min ); put( tc1_pwm_on_a_pb1::value_max );
    put( (uint16_t) twi::config::twi_port ); put( twi::config::sda_pin ); put( twi::config::scl_pin );
}
}

int main() { for (;;) ; }
