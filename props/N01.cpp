// N01: computations on separate objects do not disturb each other, even when one interrupts the other at any instruction.
// plain
// compiler: clang++
// flags: -O0 -fsanitize-coverage=func,trace-loads,trace-stores
#include "fw/pbt.hpp"
#include "fw/fixed_gen.hpp"
#include "fw/kalman_model.hpp"
#include "fw/biquad_gen.hpp"
#include "num/matrix.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/filter.hpp"
#include "core/core.hpp"
#include "std/algorithm.hpp"
#include <memory>
#include <new>
#include <signal.h>
#include <ucontext.h>

using namespace pbt;

// ---- heap use while a job runs
static volatile bool watching = false;
static volatile long allocations = 0;
void * operator new( std::size_t n ) { if ( watching ) allocations = allocations + 1; void * p = std::malloc( n ); if ( !p ) throw std::bad_alloc(); return p; }
void operator delete( void * p ) noexcept { std::free( p ); }
void operator delete( void * p, std::size_t ) noexcept { std::free( p ); }

// ---- result of a job: the bits of every value it computed
struct Out
{
    enum { max = 4096 };
    unsigned char a[max]; int n = 0; bool full = false;
    template< typename T > void put( T const & v ) { static_assert( std::is_scalar<T>::value, "" ); if ( n + (int) sizeof v > max ) { full = true; return; } std::memcpy( a + n, &v, sizeof v ); n += sizeof v; }
    template< typename R, int I, int F > void put( num::fixed_point<R,I,F> const & v ) { put( v.underlying_value() ); }
    template< typename T, int N, int M > void put( num::matrix<T,N,M> const & m ) { for ( auto const & v : m ) put( v ); }
    template< typename T > void put( std::complex<T> const & z ) { put( z.real() ); put( z.imag() ); }
};
inline bool operator==( Out const & a, Out const & b ) { return a.n == b.n && std::memcmp( a.a, b.a, a.n ) == 0; }

struct Job
{
    std::string what;
    virtual ~Job() {}
    virtual void run( Out & o ) const = 0;
};
using JobP = std::unique_ptr<Job>;

template< typename T > T value( Gen & g, double lim = 4 ) { return (T) g.real( -lim, lim ); }

// ---- the estimator
template< typename T, int M, int U >
struct Estimating : Job
{
    km::Model<T,M,U> m; int n;
    num::matrix<T,U,1> u[4]; num::matrix<T,M,1> z[4];
    Estimating( Gen & g, Case & c, bool fixed )
    {
        km::Opt o; o.amax = fixed ? 0.9 : 1.5; o.degenerate = false; o.rmin = fixed ? 1 : 0; o.xmax = fixed ? 4 : 100;
        m = km::gen_model<T,M,U>( g, c, o ); n = 1 + (int) g.draw( 1 );
        for ( int i = 0; i < 4; ++i ) { u[i] = km::gen_vec<T,U>( g, 3 ); z[i] = km::gen_vec<T,M>( g, 3 ); }
        this->what = "estimator " + std::to_string( M ) + " measurements, " + std::to_string( U ) + " controls";
    }
    void run( Out & o ) const override
    {
        auto k = m.make();
        for ( int i = 0; i < n; ++i ) { k.update( u[i], z[i] ); o.put( k.system_state() ); o.put( k.kalman_gain() ); o.put( k.estimation_error_covariance() ); o.put( k.time() ); }
    }
};

// ---- matrices
template< typename T, int N, bool Divide >
struct Calculating : Job
{
    num::matrix<T,N,N> a{}, b{}; num::matrix<T,N,1> v{}; num::matrix<T,1,N> r{}; T s; int op[6];
    Calculating( Gen & g )
    {
        for ( auto & x : a ) x = value<T>( g ); for ( auto & x : b ) x = value<T>( g ); for ( auto & x : v ) x = value<T>( g ); for ( auto & x : r ) x = value<T>( g );
        s = value<T>( g );
        for ( auto & x : op ) x = (int) g.draw( 11 );
        this->what = "matrices " + std::to_string( N ) + "x" + std::to_string( N );
    }
    void invert( Out & o, std::true_type ) const { if constexpr ( N <= 2 ) o.put( inverted( a ) ); }
    void invert( Out &, std::false_type ) const {}
    void run( Out & o ) const override
    {
        using namespace num;
        for ( int k : op ) switch ( k )
        {
        case 0: o.put( a * b ); break;
        case 1: o.put( a + b ); break;
        case 2: o.put( a - b ); break;
        case 3: o.put( a * v ); break;
        case 4: o.put( a * s ); o.put( s * a ); break;
        case 5: o.put( a + s ); o.put( a - s ); break;
        case 6: if constexpr ( N == 2 ) o.put( transposed( a ) ); o.put( transposed( v ) ); o.put( transposed( r ) ); break;
        case 7: o.put( v * r ); break;
        case 8: o.put( r * v ); break;
        case 9: o.put( -1 * a ); o.put( a * 2 - b ); break;
        case 10: invert( o, std::integral_constant<bool,Divide>() ); break;
        default: { auto x = a, y = b; std20::swap( x, y ); o.put( x ); o.put( num::eye<T,N>() + y ); break; }
        }
    }
};

// ---- fixed-point numbers
template< typename X >
struct Reckoning : Job
{
    X x[4], d;
    Reckoning( Gen & g )
    {
        for ( auto & v : x ) v = fx::make<X>( fx::gen_rep<X>( g ) / 8 );
        auto r = fx::gen_rep<X>( g ) / 8; d = fx::make<X>( r ? r : 1 );
        this->what = "fixed-point numbers " + fx::Fmt<X>::name();
    }
    void run( Out & o ) const override
    {
        X s = x[0];
        for ( auto v : x ) { s += v; o.put( s ); o.put( v * s ); o.put( v / d ); s -= d; o.put( -v ); o.put( v < s ); o.put( v == s ); o.put( s.as_double() ); o.put( v.template as<int>() ); s = X( v.as_double() ); o.put( s ); }
    }
};

// ---- filter sections, cascades, one-pole sections
template< typename T > bq::Sec<T> small_section( Gen & g )
{
    auto e = bq::gen_stable<double>( g, g.chance( 1, 3 ) ? 1.4 : 0.9 );
    bq::Sec<T> r; r.b0 = (T)( e.b0 / 2 ); r.b1 = (T)( e.b1 / 2 ); r.b2 = (T)( e.b2 / 2 ); r.a1 = (T) e.a1; r.a2 = (T) e.a2;
    return r;
}

template< typename T, bool Real >
struct Filtering : Job
{
    using Q = dsp::BiQuadT<T>; using O = dsp::OnePoleT<T>; using K = dsp::BiQuadCascadeT<T,3>;
    Q q[3]; O p; int kind, how, n; T x[6];
    Filtering( Gen & g )
    {
        for ( auto & e : q ) { auto s = small_section<T>( g ); e = Q( typename Q::B{ s.b0, s.b1, s.b2 }, typename Q::A{ s.a1, s.a2 } ); }
        p = O( typename O::B{ value<T>( g, 1 ) }, typename O::A{ value<T>( g, 1 ) } );
        kind = (int) g.draw( 3 ); how = (int) g.draw( 2 ); n = 1 + (int) g.draw( 5 );
        for ( auto & v : x ) v = value<T>( g, 1 );
        this->what = kind == 0 ? "filter section" : kind == 1 ? "cascade" : kind == 2 ? "one-pole section" : "sections handled";
    }
    void more( Out & o, std::true_type ) const
    {
        Q a = q[0]; K k( q[0], q[1] );
        switch ( how )
        {
        case 0: o.put( dsp::biquad::response( a, T( 0.1 ) ) ); o.put( a.is_stable() ); break;
        case 1: o.put( dsp::biquad_cascade::response( k, T( 0.2 ) ) ); o.put( dsp::biquad_cascade::is_stable( k ) ); break;
        default: { auto z = a.zeros(); auto s = a.poles(); o.put( z.s0 ); o.put( z.s1 ); o.put( s.s0 ); o.put( s.s1 ); Q b( z, s, a.coeff_b().b0 ); o.put( b.step( x[0] ) ); o.put( dsp::onepole::response( p, T( 0.3 ) ) ); o.put( p.is_stable() ); break; }
        }
    }
    void more( Out &, std::false_type ) const {}
    void run( Out & o ) const override
    {
        Q a = q[0]; O b = p; K k( q[0], q[1] );
        if ( kind == 3 )
        {
            a.step( x[2] ); step( k, x[3] );
            auto old = k.replace( 1, q[2] ); k.insert( 0, old ); if ( how ) k.remove( how - 1 );
            old.swap( a ); o.put( old.state().v1 ); o.put( a.state().v1 ); o.put( old.step( x[0] ) ); o.put( a.step( x[1] ) );
            for ( auto const & s : k ) { o.put( s.coeff_b().b0 ); o.put( s.coeff_a().a2 ); o.put( s.state().v1 ); }
            more( o, std::integral_constant<bool,Real>() );
            return;
        }
        for ( int i = 0; i < n; ++i )
        {
            T v = x[i];
            o.put( kind == 2 ? T( b.step( v ) ) : kind == 1 ? T( how == 0 ? step( k, v ) : how == 1 ? step_df2( k, v ) : step_df2_transposed( k, v ) )
                                                            : T( how == 0 ? a.step( v ) : how == 1 ? a.step_df2( v ) : a.step_df2_transposed( v ) ) );
        }
        if ( how ) { a.reset(); b.reset(); reset( k ); o.put( a.step( x[0] ) ); o.put( b.step( x[0] ) ); o.put( step( k, x[0] ) ); }
    }
};

// ---- designs
template< typename T >
struct Designing : Job
{
    T gain, f, fs, q; int kind;
    Designing( Gen & g ) { gain = (T) g.real( -12, 12 ); fs = (T) g.uniform( 100, 10000 ); f = (T)( fs * g.uniform( 0.01, 0.45 ) ); q = (T) g.uniform( 0.3, 3 ); kind = (int) g.draw( 9 ); this->what = "filter design " + std::to_string( kind ); }
    template< typename C > void coeff( Out & o, C const & c ) const { o.put( c.b.b0 ); o.put( c.b.b1 ); o.put( c.b.b2 ); o.put( c.a.a1 ); o.put( c.a.a2 ); }
    void run( Out & o ) const override
    {
        using R = dsp::FilterResponse;
        switch ( kind )
        {
        case 0: coeff( o, dsp::biquad_design<R::low_pass>( gain, f, fs, q ) ); break;
        case 1: coeff( o, dsp::biquad_design<R::high_pass>( gain, f, fs, q ) ); break;
        case 2: coeff( o, dsp::biquad_design<R::band_pass>( gain, f, fs, q ) ); break;
        case 3: coeff( o, dsp::biquad_design<R::band_stop>( gain, f, fs, q ) ); break;
        case 4: coeff( o, dsp::biquad_design<R::low_shelf>( gain, f, fs, q ) ); break;
        case 5: coeff( o, dsp::biquad_design<R::high_shelf>( gain, f, fs, q ) ); break;
        case 6: coeff( o, dsp::biquad_design<R::peak_band_eq>( gain, f, fs, q ) ); break;
        case 7: { auto c = dsp::onepole_design<R::low_pass>( f, fs ); o.put( c.b.b0 ); o.put( c.a.a1 ); auto d = dsp::onepole_design<R::high_pass>( f, fs ); o.put( d.b.b0 ); o.put( d.a.a1 ); break; }
        case 8: { dsp::Lpf<T> l( f, fs, q ); dsp::Hpf<T> h( f, fs, q ); for ( int i = 0; i < 3; ++i ) { o.put( l( gain ) ); o.put( h( gain ) ); } break; }
        default: o.put( dsp::dbP( q, f ) ); o.put( dsp::dbV( q, f ) ); o.put( dsp::dbP_factor( gain ) ); o.put( dsp::dbV_factor( gain ) ); o.put( dsp::prewarp( f, fs ) ); break;
        }
    }
};

// ---- ranges and algorithms
struct Walking : Job
{
    int first, last, step, kind; double v[6];
    Walking( Gen & g ) { first = g.irange( -9, 9 ); last = first + g.irange( 0, 9 ); step = g.irange( 1, 4 ); kind = (int) g.draw( 3 ); for ( auto & x : v ) x = value<double>( g ); this->what = "ranges and algorithms"; }
    void run( Out & o ) const override
    {
        double w[6], z[6];
        switch ( kind )
        {
        case 0: for ( auto i : core::range( first, last ) ) o.put( i ); break;
        case 1: for ( auto i : core::range( first, last, step ) ) o.put( i ); break;
        case 2: std20::copy( v, v + 6, w ); std20::fill( z, z + 6, v[2] ); o.put( std20::equal( v, v + 6, w ) ); o.put( std20::equal( w, w + 6, z, []( double a, double b ) { return a < b; } ) ); for ( double x : w ) o.put( x ); for ( double x : z ) o.put( x ); break;
        default: o.put( int( core::as<int>( v[0] ) ) ); o.put( float( core::as<float>( v[1] ) ) ); { auto x = v[2], y = v[3]; std20::swap( x, y ); o.put( x ); o.put( y ); } break;
        }
    }
};

// ---- observers of objects that all jobs share
struct World
{
    num::kalman<double,2,1,1> k; dsp::BiQuadT<double> s; dsp::BiQuadCascadeT<double,3> c; dsp::OnePoleT<double> p; num::matrix<double,2,2> a; num::fixed_point<std::int32_t,15> x;
};
struct Observing : Job
{
    std::shared_ptr<World const> w; int kind; double f;
    Observing( Gen & g, std::shared_ptr<World const> w_ ) : w( w_ ) { kind = (int) g.draw( 4 ); f = g.uniform( 0, 0.5 ); what = "observing shared objects " + std::to_string( kind ); }
    void run( Out & o ) const override
    {
        switch ( kind )
        {
        case 0: o.put( w->k.system_state() ); o.put( w->k.kalman_gain() ); o.put( w->k.estimation_error_covariance() ); o.put( w->k.time() ); break;
        case 1: { o.put( dsp::biquad::response( w->s, f ) ); o.put( w->s.is_stable() ); auto z = w->s.zeros(); o.put( z.s0 ); o.put( z.s1 ); auto c = w->s.coeff_b(); o.put( c.b1 ); o.put( w->s.state().v1 ); break; }
        case 2: o.put( dsp::biquad_cascade::response( w->c, f ) ); o.put( dsp::biquad_cascade::is_stable( w->c ) ); o.put( w->c.size() ); o.put( w->c.coeff_a( 1 ).a1 ); break;
        case 3: o.put( dsp::onepole::response( w->p, f ) ); o.put( w->p.is_stable() ); o.put( w->p.coeff_b().b0 ); break;
        default: o.put( num::inverted( w->a ) ); o.put( w->a * w->a ); o.put( num::transposed( w->a ) * f ); o.put( w->x * w->x ); o.put( w->x.as_double() ); break;
        }
    }
};

// ---- kinds
using X16 = num::fixed_point<std::int32_t,15>; using X8 = num::fixed_point<std::int16_t,7>;
JobP make_job( Gen & g, Case & c, int kind, std::shared_ptr<World const> const & w )
{
    switch ( kind )
    {
    case 0: return JobP( new Estimating<double,1,1>( g, c, false ) );
    case 1: return JobP( new Estimating<double,2,2>( g, c, false ) );
    case 2: return JobP( new Estimating<float,1,1>( g, c, false ) );
    case 3: return JobP( new Estimating<X16,1,1>( g, c, true ) );
    case 4: return JobP( new Calculating<double,2,true>( g ) );
    case 5: return JobP( new Calculating<double,3,true>( g ) );
    case 6: return JobP( new Calculating<float,2,true>( g ) );
    case 7: return JobP( new Calculating<X16,2,false>( g ) );
    case 8: return JobP( new Calculating<int,3,false>( g ) );
    case 9: return JobP( new Reckoning<X16>( g ) );
    case 10: return JobP( new Reckoning<X8>( g ) );
    case 11: return JobP( new Filtering<double,true>( g ) );
    case 12: return JobP( new Filtering<float,true>( g ) );
    case 13: return JobP( new Filtering<X16,false>( g ) );
    case 14: return JobP( new Designing<double>( g ) );
    case 15: return JobP( new Designing<float>( g ) );
    case 16: return JobP( new Walking( g ) );
    default: return JobP( new Observing( g, w ) );
    }
}
enum { kinds = 18 };

// ---- interruption: before any load or store (calls placed by the compiler), or after any instruction (single-step trap)
struct Level
{
    long count = 0; int next = 0, n = 0;
    long at[3]; Job const * job[3]; Out * out[3]; Level * inner[3];
};
static Level * volatile current = nullptr;
static volatile bool stepping = false;

asm( ".text\n.type pbt_trace_on,@function\npbt_trace_on:\n pushfq\n orq $0x100,(%rsp)\n popfq\n ret\n"
     ".type pbt_trace_off,@function\npbt_trace_off:\n pushfq\n andq $~0x100,(%rsp)\n popfq\n ret\n" );
extern "C" void pbt_trace_on(); extern "C" void pbt_trace_off();

__attribute__(( noinline, no_sanitize( "coverage" ) )) void perform( Job const & j, Out & o, Level * l )
{
    Level * outer = current;
    current = l;
    if ( l && stepping ) pbt_trace_on();
    j.run( o );
    if ( l && stepping ) pbt_trace_off();
    current = outer;
}

// one point passed: true if nothing more is to be done at this level
__attribute__(( noinline, no_sanitize( "coverage" ) )) bool point( Level * l )
{
    ++l->count;
    if ( l->next < l->n && l->count >= l->at[l->next] )
    {
        int i = l->next++;
        perform( *l->job[i], *l->out[i], l->inner[i] );
        current = l;
    }
    return l->next == l->n;
}

__attribute__(( no_sanitize( "coverage" ) )) void on_trap( int, siginfo_t *, void * u )
{
    Level * l = current;
    if ( !l || point( l ) ) ( (ucontext_t *) u )->uc_mcontext.gregs[REG_EFL] &= ~0x100L;      // full speed
}

__attribute__(( noinline, no_sanitize( "coverage" ) )) void access() { Level * l = current; if ( l && !stepping ) { current = nullptr; point( l ); current = l; } }
#define PBT_HOOK( n ) extern "C" void __sanitizer_cov_load##n( void * ) { access(); } extern "C" void __sanitizer_cov_store##n( void * ) { access(); }
PBT_HOOK( 1 ) PBT_HOOK( 2 ) PBT_HOOK( 4 ) PBT_HOOK( 8 ) PBT_HOOK( 16 )

void prepare()
{
    static bool done = false;
    if ( done ) return;
    struct sigaction s; std::memset( &s, 0, sizeof s );
    s.sa_sigaction = on_trap; s.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction( SIGTRAP, &s, nullptr );
    done = true;
}

// number of instructions of a job
long length( Job const & j )
{
    static Out o; o.n = 0; o.full = false;
    Level l; l.n = 1; l.at[0] = 1000000000; l.job[0] = &j; l.out[0] = &o; l.inner[0] = nullptr;
    perform( j, o, &l );
    return l.count;
}

void interrupted( Gen & g, Case & c, int kind, bool steps = false )
{
    prepare(); stepping = steps;
    bq::Sec<double> s1 = bq::gen_stable<double>( g, g.chance( 1, 3 ) ? 1.4 : 0.9 ), s2 = bq::gen_stable<double>( g, g.chance( 1, 3 ) ? 1.4 : 0.9 );
    std::shared_ptr<World> w;
    {
        auto m = km::gen_model<double,1,1>( g, c );
        w.reset( new World{ m.make(), s1.make(), { s1.make(), s2.make() }, dsp::OnePoleT<double>( { s1.b0 }, { s2.a1 } ), m.A, X16( s2.b0 ) } );
        w->k.update( { s1.b1 }, { s2.b2 } ); w->s.step( s1.b0 );
    }
    JobP a = make_job( g, c, kind, w );
    int const n = 1 + (int) g.draw( 2 );
    JobP b[3], d[3]; static Out oa, ob[3], od[3], wa, wb[3], wd[3];
    auto run = [&]( Job const & j, Out & o ) { o.n = 0; o.full = false; j.run( o ); };
    long heap = 0;
    run( *a, wa ); bool full = wa.full;
    long const len = length( *a );
    Level top; top.n = n; Level in[3];
    for ( int i = 0; i < n; ++i )
    {
        b[i] = make_job( g, c, g.chance( 2, 3 ) ? kind : (int) g.draw( kinds - 1 ), w );
        run( *b[i], wb[i] ); full = full || wb[i].full;
        top.at[i] = g.chance( 1, 10 ) ? g.range( 1, std::min( 40L, len ) ) : g.range( 1, len );
        top.job[i] = b[i].get(); top.out[i] = &ob[i]; top.inner[i] = nullptr; ob[i].n = 0;
        if ( g.chance( 1, 4 ) )
        {
            d[i] = make_job( g, c, g.chance( 2, 3 ) ? kind : (int) g.draw( kinds - 1 ), w );
            run( *d[i], wd[i] ); full = full || wd[i].full; od[i].n = 0;
            in[i].n = 1; in[i].at[0] = g.range( 1, length( *b[i] ) ); in[i].job[0] = d[i].get(); in[i].out[0] = &od[i]; in[i].inner[0] = nullptr;
            top.inner[i] = &in[i];
        }
    }
    std::sort( top.at, top.at + n );
    PBT_LOG( c, a->what << " (" << len << ( steps ? " instructions" : " memory accesses" ) << ") interrupted after " );
    for ( int i = 0; i < n; ++i ) PBT_LOG( c, top.at[i] << " by " << b[i]->what << ( d[i] ? ", itself interrupted after " + std::to_string( in[i].at[0] ) + " by " + d[i]->what : std::string() ) << "; " );
    PBT_CHECK( c, !full, "internal: result does not fit" );
    oa.n = 0; allocations = 0; watching = true;
    perform( *a, oa, &top );
    watching = false; heap = allocations;
    int nested = 0;
    for ( int i = 0; i < top.next; ++i )
    {
        PBT_CHECK( c, ob[i] == wb[i], b[i]->what << " gives another result when it interrupts " << a->what << " after " << top.at[i] << ( steps ? " instructions" : " memory accesses" ) );
        if ( d[i] && in[i].next ) { PBT_CHECK( c, od[i] == wd[i], d[i]->what << " gives another result when it interrupts " << b[i]->what << " after " << in[i].at[0] << ( steps ? " instructions" : " memory accesses" ) ); ++nested; }
    }
    PBT_CHECK( c, oa == wa, a->what << " gives another result when interrupted after " << top.at[0] << ( steps ? " instructions by " : " memory accesses by " ) << b[0]->what );
    PBT_CHECK( c, heap == 0, "heap used " << heap << " times by " << a->what << " or what interrupted it" );
    // afterwards all is as before
    run( *a, oa );
    PBT_CHECK( c, oa == wa, a->what << " gives another result after it was interrupted by " << b[0]->what );
    c.nontriv( top.next > 0 && wa.n > 0 );
    bool same = false, other = false, shared = kind == 17; for ( int i = 0; i < top.next; ++i ) { same = same || b[i]->what == a->what; other = other || b[i]->what != a->what; shared = shared && dynamic_cast<Observing *>( b[i].get() ); }
    c.cls( "same kind of computation", same ); c.cls( "other kind of computation", other ); c.cls( "interrupted more than once", top.next > 1 ); c.cls( "interruption interrupted", nested > 0 ); c.cls( "shared objects observed", shared && top.next );
    c.cls( "more than 500 memory accesses", !steps && len > 500 ); c.cls( "at an instruction", steps && top.next );
}

void estimators( Gen & g, Case & c ) { interrupted( g, c, (int) g.draw( 3 ) ); }
void matrices( Gen & g, Case & c ) { interrupted( g, c, 4 + (int) g.draw( 4 ) ); }
void numbers( Gen & g, Case & c ) { interrupted( g, c, 9 + (int) g.draw( 1 ) ); }
void filters( Gen & g, Case & c ) { interrupted( g, c, 11 + (int) g.draw( 2 ) ); }
void designs( Gen & g, Case & c ) { interrupted( g, c, 14 + (int) g.draw( 1 ) ); }
void others( Gen & g, Case & c ) { interrupted( g, c, 16 + (int) g.draw( 1 ) ); }

void instructions( Gen & g, Case & c ) { interrupted( g, c, (int) g.pick( std::vector<int>{ 4, 6, 9, 10, 11, 12, 13, 16 } ), true ); }

Suite pbt::suite()
{
    return { "N01",
        "random computations (estimators of four types, matrices of five, fixed-point numbers, filter sections, cascades and one-pole sections of three types in every realisation, all designs, ranges and algorithms, observers of shared objects) interrupted up to three times, before a random load or store (calls placed by the compiler, built without optimisation so that no memory access is optimised away) or after a random machine instruction (processor single-step trap), by other computations, of the same kind in two cases of three, that may be interrupted in turn; every result must have the bits it has when the computation runs alone, before and after, and no heap may be used. Non-trivial: an interruption took place and the interrupted computation has results.",
        { { "estimators", 160, estimators }, { "matrices", 240, matrices }, { "fixed-point numbers", 80, numbers }, { "filters", 300, filters }, { "designs", 200, designs }, { "others", 240, others }, { "at an instruction", 1, instructions } },
        200000, 8000000, { "same kind of computation", "other kind of computation", "interrupted more than once", "interruption interrupted", "shared objects observed", "more than 500 memory accesses", "at an instruction" } };
}
