// A small property-based testing framework: every case is a pure function of a
// sequence of integer choices.  Random mode draws the choices from a PRNG that is
// seeded by (VERIF_SEED, sub-property, case number); replay mode reads them from a
// file; fuzz mode (-DPBT_FUZZ, libFuzzer) decodes them from bytes.  Shrinking works
// on the choice sequence, so any shrunk case replays exactly.
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix64( uint64_t x )
{
    x += 0x9e3779b97f4a7c15ull;
    x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull;
    return x ^ ( x >> 31 );
}

inline uint64_t hash_str( std::string const & s )
{
    uint64_t h = 1469598103934665603ull;
    for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; }
    return mix64( h );
}

// numbers found in the sources under test (written by run.py); see Gen::mined().
std::vector<double> const & mined_numbers();

struct Discard {};                       // case is outside the domain

struct Failure
{
    std::string msg;
};

class Gen
{
public:
    enum Mode { random_mode, replay_mode, bytes_mode };

    explicit Gen( uint64_t seed, int size_ )
    : mode( random_mode ), size( size_ )
    {
        for ( auto & v : s ) { seed = mix64( seed ); v = seed; }
    }

    explicit Gen( std::vector<uint64_t> choices, int size_ )
    : mode( replay_mode ), size( size_ ), given( std::move( choices ) )
    {}

    Gen( uint8_t const * d, std::size_t n, int size_ )
    : mode( bytes_mode ), size( size_ ), data( d ), left( n )
    {}

    // 0..bound, inclusive; 0 is the simplest choice.
    uint64_t draw( uint64_t bound )
    {
        uint64_t v = 0;
        switch ( mode )
        {
        case random_mode:
            v = bound == UINT64_MAX ? next() : reduce( next(), bound );
            break;
        case replay_mode:
            v = pos < given.size() ? given[pos] : 0;
            if ( v > bound ) v = bound == 0 ? 0 : v % ( bound + 1 );
            ++pos;
            break;
        case bytes_mode:
            {
                int n = 0;
                for ( uint64_t b = bound; b; b >>= 8 ) ++n;
                for ( int i = 0; i < n; ++i )
                {
                    v = ( v << 8 ) | ( left ? ( --left, *data++ ) : 0 );
                }
                if ( bound != UINT64_MAX ) v %= ( bound + 1 );
            }
            break;
        }
        taken.push_back( v );
        if ( sink && sink[0] < sink_max ) { sink[ 1 + sink[0] ] = v; ++sink[0]; }
        return v;
    }

    // lo..hi inclusive; shrinks towards 0 if in range, else towards the end nearest to 0.
    int64_t range( int64_t lo, int64_t hi )
    {
        if ( lo > hi ) std::abort();
        if ( lo > 0 || hi < 0 )
        {
            uint64_t v = draw( (uint64_t) hi - (uint64_t) lo );
            return lo > 0 ? (int64_t)( (uint64_t) lo + v ) : (int64_t)( (uint64_t) hi - v );
        }
        // zigzag: 0, 1, -1, 2, -2 ... then the longer side
        uint64_t p = (uint64_t) hi, n = 0 - (uint64_t) lo, m = std::min( p, n );
        uint64_t v = draw( p + n );
        if ( v <= 2 * m ) return v % 2 ? (int64_t)( v / 2 + 1 ) : -(int64_t)( v / 2 );
        v -= m;
        return p > n ? (int64_t) v : -(int64_t) v;
    }

    int irange( int lo, int hi ) { return (int) range( lo, hi ); }

    bool coin() { return draw( 1 ) != 0; }

    // true in n out of d
    bool chance( int n, int d ) { return (int) draw( d - 1 ) >= d - n; }

    // "one more element?": expected number of elements about avg
    bool more( int avg, int & count, int max )
    {
        if ( count >= max ) return false;
        if ( draw( avg ) == 0 ) return false;
        ++count;
        return true;
    }

    double unit() { return (double) draw( ( 1ull << 53 ) - 1 ) / 9007199254740992.0; }

    // uniform, lo <= v < hi (or == lo)
    double uniform( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }

    // log-uniform magnitude
    double loguni( double lo, double hi ) { return lo * std::exp( unit() * std::log( hi / lo ) ); }

    // a mix of shapes: small integers, simple fractions, numbers in the sources, uniform, log-uniform
    double real( double lo, double hi )
    {
        double v = 0;
        switch ( draw( 6 ) )
        {
        case 0: v = (double) range( -4, 4 ); break;
        case 1: v = (double) range( -64, 64 ) / 8.0; break;
        case 2: v = mined(); break;
        case 3: v = (double) range( -1000, 1000 ) / 10.0; break;
        case 4:
            {
                double m = std::max( std::fabs( lo ), std::fabs( hi ) );
                v = loguni( m * 1e-6, m );
                if ( lo < 0 && coin() ) v = -v;
            }
            break;
        default: v = uniform( lo, hi ); break;
        }
        if ( !( v >= lo && v <= hi ) ) v = uniform( lo, hi );
        return v;
    }

    // a number mentioned in the sources under test, possibly off by one, negated or scaled
    double mined()
    {
        auto const & m = mined_numbers();
        double v = m.empty() ? 0.0 : m[ draw( m.size() - 1 ) ];
        switch ( draw( 9 ) )
        {
        case 7: v += 1; break;
        case 8: v -= 1; break;
        case 9: v = -v; break;
        default: break;
        }
        return v;
    }

    template< typename C >
    auto const & pick( C const & c ) { return c[ draw( c.size() - 1 ) ]; }

    template< typename T >
    T pick( std::initializer_list<T> il ) { return *( il.begin() + draw( il.size() - 1 ) ); }

    std::vector<uint64_t> const & choices() const { return taken; }

private:
    static uint64_t rotl( uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }

    uint64_t next()
    {
        uint64_t r = rotl( s[1] * 5, 7 ) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl( s[3], 45 );
        return r;
    }

    static uint64_t reduce( uint64_t r, uint64_t bound )
    {
        return (uint64_t)( ( (unsigned __int128) r * ( (unsigned __int128) bound + 1 ) ) >> 64 );
    }

    Mode mode;
public:
    int size;                            // 1..100, grows over a run
    uint64_t * sink = nullptr;           // shared memory copy of the choices: count, then choices
    static constexpr uint64_t sink_max = 1 << 20;
private:
    uint64_t s[4] = {};
    std::vector<uint64_t> given;
    std::size_t pos = 0;
    uint8_t const * data = nullptr;
    std::size_t left = 0;
    std::vector<uint64_t> taken;
};

class Case
{
public:
    bool verbose = false;
    bool nontrivial = false;
    std::vector<char const *> classes;
    std::map<std::string, std::string> known_hits;   // finding => what failed
    std::ostringstream log;
    std::set<std::string> const * known = nullptr;

    // label the case; label must be a literal
    void cls( char const * label, bool when = true ) { if ( when ) classes.push_back( label ); }

    void nontriv( bool when = true ) { nontrivial = nontrivial || when; }

    [[noreturn]] void fail( std::string const & msg ) { throw Failure{ msg }; }

    // a deviation that is a recorded finding is counted, anything else fails
    void finding( char const * name, std::string const & msg )
    {
        if ( known && known->count( name ) ) { known_hits.emplace( name, msg ); return; }
        throw Failure{ msg };
    }
};

#define PBT_LOG(c, expr)  do { if ( (c).verbose ) { (c).log << expr; } } while (0)

#define PBT_CHECK(c, cond, expr) \
    do { if ( !( cond ) ) { std::ostringstream os_; os_ << std::setprecision( 17 ) << expr; \
         (c).fail( os_.str() + "   [" #cond "]" ); } } while (0)

struct Prop
{
    std::string name;
    int weight;
    std::function<void( Gen &, Case & )> fn;
};

struct Suite
{
    char const * id;
    char const * rule;                          // how cases are made; what is non-trivial
    std::vector<Prop> props;
    long quick;                                 // number of cases
    long thorough;
    std::vector<char const *> must_cover;       // classes that may not be empty
};

Suite suite();                                  // defined by each check

// ---------------------------------------------------------------------------

struct Outcome
{
    enum Kind { pass, discard, fail, crash, hang } kind = pass;
    std::string msg;
};

inline Outcome run_case( Prop const & p, Gen & g, Case & c )
{
    Outcome o;
    try { p.fn( g, c ); }
    catch ( Failure const & f )        { o.kind = Outcome::fail; o.msg = f.msg; }
    catch ( Discard const & )          { o.kind = Outcome::discard; }
    catch ( std::exception const & e ) { o.kind = Outcome::fail; o.msg = std::string( "exception: " ) + e.what(); }
    return o;
}

inline std::string env( char const * n, char const * d ) { auto v = std::getenv( n ); return v && *v ? v : d; }

inline std::set<std::string> load_known( std::string const & id )
{
    // lines: "finding: property=<id> name=<name> <what fails>"
    std::set<std::string> r;
    std::ifstream f( env( "PBT_KNOWN", "/verif/known-findings.txt" ) );
    std::string line;
    while ( std::getline( f, line ) )
    {
        if ( line.rfind( "finding: property=" + id + " name=", 0 ) != 0 ) continue;
        std::istringstream is( line );
        std::string a, b, n;
        is >> a >> b >> n;
        r.insert( n.substr( 5 ) );
    }
    return r;
}

inline std::string json( std::string const & s )
{
    std::string r = "\"";
    for ( unsigned char ch : s )
    {
        if ( ch == '"' || ch == '\\' ) { r += '\\'; r += (char) ch; }
        else if ( ch == '\n' ) r += "\\n";
        else if ( ch < 32 || ch > 126 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", ch ); r += b; }
        else r += (char) ch;
    }
    return r + "\"";
}

struct Schedule
{
    std::vector<int> slots;
    explicit Schedule( Suite const & s )
    {
        // interleave by weight
        int total = 0;
        for ( auto & p : s.props ) total += p.weight;
        std::vector<double> acc( s.props.size(), 0.0 );
        for ( int i = 0; i < total; ++i )
        {
            std::size_t best = 0;
            for ( std::size_t k = 0; k < acc.size(); ++k ) { acc[k] += s.props[k].weight; if ( acc[k] > acc[best] ) best = k; }
            acc[best] -= total;
            slots.push_back( (int) best );
        }
    }
    int prop( long i ) const { return slots[ i % slots.size() ]; }
};

inline Gen make_gen( Suite const & s, uint64_t seed, int prop, long i, long total )
{
    int size = (int) std::min<long>( 100, 1 + ( i * 150 ) / std::max<long>( 1, total ) );
    return Gen( mix64( mix64( seed ^ hash_str( s.id ) ) ^ hash_str( s.props[prop].name ) ^ mix64( (uint64_t) i ) ), size );
}

#ifndef PBT_FUZZ

inline double now() { using namespace std::chrono; return duration<double>( steady_clock::now().time_since_epoch() ).count(); }

struct Shared { volatile long current; volatile double since; };

struct WorkerResult
{
    long evaluations = 0, discarded = 0, nontrivial = 0;
    std::vector<uint64_t> hashes;
    std::map<std::string, long> classes, per_prop;
    std::map<std::string, std::pair<std::string, long>> known;
    long fail_at = -1;
    Outcome outcome;
};

inline std::string tail( std::string const & file, std::size_t n )
{
    std::ifstream f( file );
    std::stringstream ss; ss << f.rdbuf();
    auto s = ss.str();
    return s.size() > n ? s.substr( 0, n ) : s;
}

// run a choice sequence in a child process
inline Outcome isolated( Suite const & s, int prop, std::vector<uint64_t> const & ch, int size,
    std::set<std::string> const & known, std::string const & tmp, double timeout, std::string * log = nullptr )
{
    std::string of = tmp + ".iso", ef = tmp + ".err", lf = tmp + ".log";
    ::unlink( of.c_str() ); ::unlink( lf.c_str() );
    pid_t pid = fork();
    if ( pid == 0 )
    {
        int fd = ::open( ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644 );
        if ( fd >= 0 ) { ::dup2( fd, 2 ); ::close( fd ); }
        Gen g( ch, size ); Case c; c.known = &known; c.verbose = log != nullptr;
        c.log << std::setprecision( 17 );
        auto o = run_case( s.props[prop], g, c );
        { std::ofstream f( lf ); f << c.log.str(); }
        { std::ofstream f( of ); f << (int) o.kind << "\n" << o.msg; }
        _exit( 0 );
    }
    double t0 = now();
    int st = 0;
    Outcome o;
    for ( ;; )
    {
        pid_t r = ::waitpid( pid, &st, WNOHANG );
        if ( r == pid ) break;
        if ( now() - t0 > timeout )
        {
            ::kill( pid, SIGKILL ); ::waitpid( pid, &st, 0 );
            o.kind = Outcome::hang; o.msg = "case does not terminate"; return o;
        }
        ::usleep( now() - t0 < 0.02 ? 200 : 2000 );
    }
    if ( log ) *log = tail( lf, 6000 );
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 )
    {
        std::ifstream f( of ); int k = -1; f >> k; f.ignore(); std::stringstream ss; ss << f.rdbuf();
        if ( k >= 0 ) { o.kind = (Outcome::Kind) k; o.msg = ss.str(); return o; }
    }
    o.kind = Outcome::crash;
    o.msg = ( WIFSIGNALED( st ) ? "killed by signal " + std::to_string( WTERMSIG( st ) ) : "exited with " + std::to_string( WEXITSTATUS( st ) ) )
          + ": " + tail( ef, 1500 );
    return o;
}

inline bool bad( Outcome const & o ) { return o.kind == Outcome::fail || o.kind == Outcome::crash || o.kind == Outcome::hang; }

inline std::vector<uint64_t> shrink( std::vector<uint64_t> best, std::function<bool( std::vector<uint64_t> const & )> fails, double budget )
{
    double t0 = now();
    long tries = 0;
    auto ok = [&]( std::vector<uint64_t> const & c ) { ++tries; return fails( c ); };
    auto time = [&] { return now() - t0 < budget && tries < 6000; };
    bool progress = true;
    while ( progress && time() )
    {
        progress = false;
        for ( std::size_t len : { 64u, 32u, 16u, 8u, 5u, 4u, 3u, 2u, 1u } )
            for ( std::size_t i = best.size(); i-- > 0 && time(); )
            {
                if ( i + len > best.size() ) continue;
                auto c = best; c.erase( c.begin() + i, c.begin() + i + len );
                if ( ok( c ) ) { best = c; progress = true; }
            }
        for ( std::size_t i = 0; i < best.size() && time(); ++i )
        {
            if ( best[i] == 0 ) continue;
            auto c = best; c[i] = 0;
            if ( ok( c ) ) { best = c; progress = true; continue; }
            uint64_t lo = 0, hi = best[i];      // lo passes, hi fails
            while ( hi - lo > 1 && time() )
            {
                uint64_t m = lo + ( hi - lo ) / 2;
                c = best; c[i] = m;
                if ( ok( c ) ) hi = m; else lo = m;
            }
            if ( hi < best[i] ) { best[i] = hi; progress = true; }
        }
        while ( !best.empty() && best.back() == 0 ) best.pop_back();
    }
    return best;
}

inline int size_of( long i, long total ) { return (int) std::min<long>( 100, 1 + ( i * 150 ) / std::max<long>( 1, total ) ); }

inline void worker( Suite const & s, uint64_t seed, long total, int w, int nw, Shared & sh,
    std::set<std::string> const & known, std::string const & out, long from )
{
    Schedule sched( s );
    WorkerResult r;
    std::vector<std::pair<char const *, long>> cls;   // pointer-keyed, merged by text at the end
    std::vector<long> pp( s.props.size(), 0 );
    for ( long i = from; i < total; ++i )
    {
        if ( i % nw != w ) continue;
        int p = sched.prop( i );
        sh.current = i; sh.since = now();
        Gen g = make_gen( s, seed, p, i, total );
        Case c; c.known = &known;
        auto o = run_case( s.props[p], g, c );
        ++r.evaluations; ++pp[p];
        for ( auto & k : c.known_hits ) { auto & e = r.known[k.first]; if ( e.second++ == 0 ) e.first = k.second; }
        if ( o.kind == Outcome::discard ) { ++r.discarded; continue; }
        if ( o.kind == Outcome::fail ) { r.fail_at = i; r.outcome = o; break; }
        for ( auto l : c.classes )
        {
            auto it = std::find_if( cls.begin(), cls.end(), [&]( auto & e ) { return e.first == l; } );
            if ( it == cls.end() ) cls.push_back( { l, 1 } ); else ++it->second;
        }
        if ( c.nontrivial )
        {
            ++r.nontrivial;
            uint64_t h = hash_str( s.props[p].name );
            for ( auto v : g.choices() ) h = mix64( h ^ v ) + 0x1234567;
            r.hashes.push_back( h );
        }
    }
    sh.current = -1;
    for ( auto & e : cls ) r.classes[ e.first ] += e.second;
    std::ofstream f( out, std::ios::binary );
    f << r.evaluations << ' ' << r.discarded << ' ' << r.nontrivial << ' ' << r.fail_at << "\n";
    f << r.classes.size() << "\n"; for ( auto & e : r.classes ) f << e.second << ' ' << e.first << "\n";
    for ( auto v : pp ) f << v << ' '; f << "\n";
    f << r.known.size() << "\n";
    for ( auto & e : r.known )
    {
        auto what = e.second.first; for ( auto & ch : what ) if ( ch == '\n' ) ch = ' ';
        f << e.second.second << ' ' << e.first << ' ' << what << "\n";
    }
    f << r.hashes.size() << "\n";
    f.write( (char const *) r.hashes.data(), (std::streamsize)( r.hashes.size() * 8 ) );
}

inline bool read_worker( std::string const & file, WorkerResult & r, Suite const & s )
{
    std::ifstream f( file, std::ios::binary );
    if ( !( f >> r.evaluations >> r.discarded >> r.nontrivial >> r.fail_at ) ) return false;
    std::size_t n; f >> n;
    for ( std::size_t i = 0; i < n; ++i ) { long v; f >> v; f.ignore(); std::string t; std::getline( f, t ); r.classes[t] += v; }
    for ( auto & p : s.props ) { long v; f >> v; r.per_prop[p.name] += v; }
    f >> n; f.ignore();
    for ( std::size_t i = 0; i < n; ++i )
    {
        long v; std::string nm, t; f >> v >> nm; f.ignore(); std::getline( f, t ); r.known[nm] = { t, v };
    }
    f >> n; f.ignore();
    r.hashes.resize( n );
    f.read( (char *) r.hashes.data(), (std::streamsize)( n * 8 ) );
    return true;
}

inline std::string hex_choices( std::vector<uint64_t> const & c )
{
    std::ostringstream os; os << std::hex;
    for ( auto v : c ) os << v << ' ';
    return os.str();
}

inline int read_replay( Suite const & s, std::string const & file, std::vector<uint64_t> & ch, int & size )
{
    std::ifstream f( file );
    std::string line, prop;
    size = 100;
    while ( std::getline( f, line ) )
    {
        if ( line.rfind( "sub-property: ", 0 ) == 0 ) prop = line.substr( 14 );
        if ( line.rfind( "size: ", 0 ) == 0 ) size = std::stoi( line.substr( 6 ) );
        if ( line.rfind( "choices:", 0 ) == 0 )
        {
            std::istringstream is( line.substr( 8 ) ); uint64_t v; is >> std::hex;
            while ( is >> v ) ch.push_back( v );
        }
    }
    for ( std::size_t p = 0; p < s.props.size(); ++p ) if ( prop == s.props[p].name ) return (int) p;
    std::printf( "no such sub-property: %s\n", prop.c_str() );
    return -1;
}

inline int replay_file( Suite const & s, std::string const & file, std::set<std::string> const & known, std::string const & tmp )
{
    std::vector<uint64_t> ch; int size;
    int p = read_replay( s, file, ch, size );
    if ( p < 0 ) return 2;
    std::string log;
    auto o = isolated( s, p, ch, size, known, tmp, 30, &log );
    std::printf( "%s\n", log.c_str() );
    if ( bad( o ) ) { std::printf( "FAILS: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), s.id, file.c_str() ); return 1; }
    std::printf( "passes\n" );
    return 0;
}

// returns the path of the replay file, or "" if the failure does not reproduce
inline std::string report( Suite const & s, int p, std::vector<uint64_t> ch, int size, std::set<std::string> const & known,
    std::string const & tmp, std::string const & replays, uint64_t seed, long index, double shrink_budget = 25 )
{
    double to = 30;
    auto first = isolated( s, p, ch, size, known, tmp, to );
    if ( !bad( first ) ) return "";
    if ( first.kind == Outcome::hang ) shrink_budget = 0;
    auto best = shrink( ch, [&]( auto const & c ) {
        auto o = isolated( s, p, c, size, known, tmp, 5 );
        return o.kind == Outcome::fail || o.kind == Outcome::crash;
    }, shrink_budget );
    std::string log; Outcome last;
    for ( int i = 0; i < 3; ++i )
    {
        last = isolated( s, p, best, size, known, tmp, to, i == 2 ? &log : nullptr );
        if ( !bad( last ) ) return "";
    }
    ::mkdir( replays.c_str(), 0755 );
    std::ostringstream body;
    body << "property: " << s.id << "\nsub-property: " << s.props[p].name << "\nsize: " << size
         << "\nseed: " << seed << " case: " << index
         << "\nchoices: " << hex_choices( best ) << "\nfailure: " << last.msg << "\ncase:\n" << log << "\n";
    char nm[64]; std::snprintf( nm, sizeof nm, "%s-%016llx.txt", s.id, (unsigned long long) hash_str( s.props[p].name + hex_choices( best ) ) );
    std::string path = replays + "/" + nm;
    { std::ofstream f( path ); f << body.str(); }
    std::printf( "%s\n", body.str().c_str() );
    return path;
}

inline int run_main( int argc, char ** argv )
{
    Suite s = suite();
    std::string tier = env( "VERIF_TIER", "quick" ), root = env( "PBT_ROOT", "/verif" );
    uint64_t seed = std::strtoull( env( "VERIF_SEED", "1" ).c_str(), nullptr, 10 );
    std::string tmp = env( "PBT_TMP", "/tmp" ) + "/" + s.id + "." + std::to_string( getpid() );
    std::string replays = root + "/replays";
    auto known = load_known( s.id );
    long total = tier == "thorough" ? s.thorough : s.quick;
    if ( auto e = std::getenv( "PBT_CASES" ) ) total = std::atol( e );
    int nw = std::atoi( env( "PBT_JOBS", "8" ).c_str() );

    if ( argc == 3 && std::string( argv[1] ) == "--replay" ) return replay_file( s, argv[2], known, tmp );

    if ( argc == 3 && std::string( argv[1] ) == "--minimize" )
    {
        std::vector<uint64_t> ch; int size;
        int p = read_replay( s, argv[2], ch, size );
        if ( p < 0 ) return 2;
        auto path = report( s, p, ch, size, known, tmp, replays, seed, -1 );
        if ( path.empty() ) return 0;
        std::printf( "VIOLATION property=%s replay=%s\n", s.id, path.c_str() );
        return 1;
    }

    double t0 = now();
    auto * sh = (Shared *) ::mmap( nullptr, sizeof( Shared ) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    std::vector<pid_t> pids( nw );
    std::vector<long> died( nw, -1 );
    std::vector<bool> hung( nw, false );
    std::fflush( stdout );
    for ( int w = 0; w < nw; ++w )
    {
        sh[w].current = -1; sh[w].since = now();
        pids[w] = fork();
        if ( pids[w] == 0 )
        {
            int fd = ::open( ( tmp + ".w" + std::to_string( w ) + ".err" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644 );
            if ( fd >= 0 ) { ::dup2( fd, 2 ); ::close( fd ); }
            worker( s, seed, total, w, nw, sh[w], known, tmp + ".w" + std::to_string( w ), 0 );
            _exit( 0 );
        }
    }
    for ( int alive = nw; alive > 0; )
    {
        for ( int w = 0; w < nw; ++w )
        {
            if ( pids[w] == 0 ) continue;
            int st = 0;
            if ( ::waitpid( pids[w], &st, WNOHANG ) == pids[w] )
            {
                if ( !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) ) died[w] = sh[w].current;
                pids[w] = 0; --alive;
            }
            else if ( sh[w].current >= 0 && now() - sh[w].since > 60 )
            {
                died[w] = sh[w].current; hung[w] = true;
                ::kill( pids[w], SIGKILL ); ::waitpid( pids[w], &st, 0 ); pids[w] = 0; --alive;
            }
        }
        ::usleep( 5000 );
    }

    Schedule sched( s );
    WorkerResult all;
    long fail_at = -1;
    bool broken = false;
    for ( int w = 0; w < nw; ++w )
    {
        std::string f = tmp + ".w" + std::to_string( w );
        WorkerResult r;
        long at = died[w];
        if ( at < 0 )
        {
            if ( !read_worker( f, r, s ) ) { broken = true; std::printf( "worker %d left no result: %s\n", w, tail( f + ".err", 2000 ).c_str() ); continue; }
            all.evaluations += r.evaluations; all.discarded += r.discarded; all.nontrivial += r.nontrivial;
            for ( auto & e : r.classes ) all.classes[e.first] += e.second;
            for ( auto & e : r.per_prop ) all.per_prop[e.first] += e.second;
            for ( auto & e : r.known ) { auto & k = all.known[e.first]; if ( k.first.empty() ) k.first = e.second.first; k.second += e.second.second; }
            all.hashes.insert( all.hashes.end(), r.hashes.begin(), r.hashes.end() );
            at = r.fail_at;
        }
        else all.evaluations += at / nw + 1;
        if ( at >= 0 && ( fail_at < 0 || at < fail_at ) ) fail_at = at;
        ::unlink( f.c_str() ); ::unlink( ( f + ".err" ).c_str() );
    }
    std::sort( all.hashes.begin(), all.hashes.end() );
    long distinct = (long)( std::unique( all.hashes.begin(), all.hashes.end() ) - all.hashes.begin() );

    int violations = 0;
    if ( fail_at >= 0 )
    {
        int p = sched.prop( fail_at );
        // regenerate the choices in a child (the case may crash or hang)
        std::vector<uint64_t> ch;
        auto * sink = (uint64_t *) ::mmap( nullptr, ( Gen::sink_max + 1 ) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        pid_t pid = fork();
        if ( pid == 0 )
        {
            int fd = ::open( "/dev/null", O_WRONLY ); ::dup2( fd, 2 );
            Gen g = make_gen( s, seed, p, fail_at, total );
            g.sink = sink;
            Case c; c.known = &known;
            ::alarm( 20 );
            run_case( s.props[p], g, c );
            _exit( 0 );
        }
        int st; ::waitpid( pid, &st, 0 );
        ch.assign( sink + 1, sink + 1 + sink[0] );
        auto path = report( s, p, ch, size_of( fail_at, total ), known, tmp, replays, seed, fail_at );
        if ( path.empty() ) { std::printf( "case %ld of %s failed but does not reproduce\n", fail_at, s.props[p].name.c_str() ); broken = true; }
        else { std::printf( "VIOLATION property=%s replay=%s\n", s.id, path.c_str() ); violations = 1; }
    }

    // samples: written out by running chosen cases again with the log on
    std::vector<std::string> samples;
    if ( !violations )
    {
        std::map<int,int> have;
        for ( long i = total / 3; i < total && i < total / 3 + 4000; ++i )
        {
            int p = sched.prop( i );
            if ( have[p] >= 2 || samples.size() >= 10 ) continue;
            Gen g = make_gen( s, seed, p, i, total ); Case c; c.known = &known; c.verbose = true;
            c.log << std::setprecision( 9 );
            run_case( s.props[p], g, c );
            if ( !c.nontrivial ) continue;
            ++have[p];
            std::string t = c.log.str();
            if ( t.size() > 700 ) t = t.substr( 0, 700 ) + " ...";
            samples.push_back( std::string( s.props[p].name ) + " #" + std::to_string( i ) + ": " + t );
        }
    }

    std::vector<std::string> uncovered;
    if ( fail_at < 0 && !broken )
        for ( auto m : s.must_cover ) if ( !all.classes.count( m ) ) uncovered.push_back( m );

    {
        std::ofstream e( env( "PBT_EVIDENCE", ( root + "/evidence/" + s.id + ".json" ).c_str() ) );
        e << "{\n \"property\": " << json( s.id ) << ",\n \"tier\": " << json( tier ) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << all.evaluations
          << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"nontrivial\": " << all.nontrivial
          << ",\n  \"discarded\": " << all.discarded << ",\n  \"rule\": " << json( s.rule ) << ",\n  \"per_subproperty\": {";
        char const * sep = "";
        for ( auto & x : all.per_prop ) { e << sep << json( x.first ) << ": " << x.second; sep = ", "; }
        e << "},\n  \"classes\": {"; sep = "";
        for ( auto & x : all.classes ) { e << sep << json( x.first ) << ": " << x.second; sep = ", "; }
        e << "},\n  \"known_findings\": {"; sep = "";
        for ( auto & x : all.known ) { e << sep << json( x.first ) << ": " << x.second.second; sep = ", "; }
        e << "},\n  \"samples\": ["; sep = "";
        for ( auto & x : samples ) { e << sep << "\n   " << json( x ); sep = ","; }
        e << "]\n },\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
    }
    for ( auto & x : all.known )
        std::printf( "KNOWN-FINDING: property=%s name=%s (%ld cases) %s\n", s.id, x.first.c_str(), x.second.second, x.second.first.c_str() );
    std::printf( "%s %s seed=%llu: %ld cases, %ld non-trivial (%ld distinct), %ld discarded, %.1f s\n", s.id, tier.c_str(),
        (unsigned long long) seed, all.evaluations, all.nontrivial, distinct, all.discarded, now() - t0 );
    for ( auto x : { ".iso", ".err", ".log" } ) ::unlink( ( tmp + x ).c_str() );
    if ( violations ) return 1;
    for ( auto & u : uncovered ) std::printf( "class never generated: %s\n", u.c_str() );
    return broken || !uncovered.empty() ? 2 : 0;
}

#endif // PBT_FUZZ

} // namespace pbt

#ifdef PBT_FUZZ

extern "C" void __sanitizer_set_death_callback( void (*)( void ) );

namespace pbt { namespace fuzz {

inline Suite & the_suite() { static Suite s = suite(); return s; }
inline Gen * current = nullptr;
inline int current_prop = 0;
inline std::string message;

inline void save()
{
    if ( !current ) return;
    Suite & s = the_suite();
    std::string path = env( "PBT_FUZZ_OUT", "/tmp/fuzz-failure.txt" );
    std::ofstream f( path );
    f << "property: " << s.id << "\nsub-property: " << s.props[current_prop].name << "\nsize: 100\nchoices: " << std::hex;
    for ( auto v : current->choices() ) f << v << ' ';
    f << "\nfailure: " << message << "\n";
}

}}

extern "C" int LLVMFuzzerTestOneInput( uint8_t const * data, std::size_t n )
{
    using namespace pbt;
    Suite & s = fuzz::the_suite();
    static auto known = load_known( s.id );
    static bool once = ( __sanitizer_set_death_callback( fuzz::save ), true );
    (void) once;
    if ( n < 2 ) return 0;
    fuzz::current_prop = data[0] % s.props.size();
    Gen g( data + 1, n - 1, 100 );
    Case c; c.known = &known;
    fuzz::current = &g; fuzz::message = "crash";
    auto o = run_case( s.props[fuzz::current_prop], g, c );
    if ( o.kind == Outcome::fail ) { fuzz::message = o.msg; fuzz::save(); fuzz::current = nullptr; __builtin_trap(); }
    fuzz::current = nullptr;
    return 0;
}

#else

int main( int argc, char ** argv ) { return pbt::run_main( argc, argv ); }

#endif

#include "mined.inc"            // written by run.py

#endif
