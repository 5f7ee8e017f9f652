"""X01: every header can be used alone and together with others in any order.

Cases are generated programs: 1-3 source files, each with a random sequence of the public headers (repeats allowed)
and uses of each of them; the oracle is the compiler, the linker and the exit code of the program.
A failing program is shrunk (fewer files, fewer headers) and saved as the replay file."""
import concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, time

# header -> uses: expressions/statements that set ok to false when something is wrong
USES = {
 'core/core.hpp': ['int s = 0; for ( auto i : core::range( 1, 4 ) ) s += i; int k = core::as<int>( 2.5 ); ok = s == 6 && k == 2 && core::line( 3 ) == "---";',
                   'core::identity_t<int> k = 3; ok = k == 3 && core::replaced( "abc", "b", "x" ) == "axc";'],
 'core/core-io.hpp': ['std::vector<int> v{ 1, 2 }; std::ostringstream os; os << v; ok = os.str() == "[ 1 2]";'],
 'core/range.hpp': ['double s = 0; for ( auto x : core::range( 0.0, 1.0, 0.25 ) ) s += x; ok = s == 1.5;', 'int a[] = { 3, 4 }; int s = 0; for ( auto i : core::indices( a ) ) s += a[i]; ok = s == 7;'],
 'core/shims.hpp': ['double d = core::as<double>( 3 ); ok = d == 3;'],
 'core/text.hpp': ['core::Text t = core::replaced( core::line( 2, \'x\' ), "x", "y" ); ok = t == "yx";'],
 'core/traits.hpp': ['core::identity_t<double> d = 1.5; ok = d == 1.5;'],
 'core/vector-io.hpp': ['std::vector<double> v{ 0.5 }; std::ostringstream os; os << v; ok = os.str() == "[ 0.5]";'],
 'dsp/biquad.hpp': ['dsp::BiQuadT<double> q( { 1, 0, 0 }, { 0, 0 } ); ok = q.step( 3 ) == 3 && q.is_stable();', 'using Q = dsp::BiQuadT<float>; Q q( { 2, 0, 0 }, { 0, 0 } ); ok = q.step( 3 ) == 6 && q.coeff_b().b0 == 2;'],
 'dsp/biquad-io.hpp': ['dsp::BiQuadT<double> q( { 1, 0, 0 }, { 0.5, 0 } ); std::ostringstream os; os << q; ok = os.str().find( "stable" ) != std::string::npos;'],
 'dsp/biquad-cascade.hpp': ['dsp::BiQuadCascadeT<double,3> c; c.append( dsp::BiQuadT<double>( { 2, 0, 0 }, { 0, 0 } ) ); ok = c.size() == 1 && step( c, 2 ) == 4 && is_stable( c );'],
 'dsp/biquad-cascade-io.hpp': ['dsp::BiQuadCascadeT<float,2> c; c.append( dsp::BiQuadT<float>( { 2, 0, 0 }, { 0, 0 } ) ); std::ostringstream os; os << c; ok = os.str().size() > 30;'],
 'dsp/biquad-design.hpp': ['auto q = dsp::make_biquad( dsp::biquad_design<dsp::FilterResponse::low_pass>( 0, 25, 100, 0.8f ) ); ok = q.is_stable();',
                           'auto q = dsp::make_biquad( dsp::biquad_design<dsp::FilterResponse::low_shelf>( 6.0, 25, 100, 3 ) ); ok = q.is_stable();'],
 'dsp/chebyshev-design.hpp': ['auto c = dsp::make_biquad_cascade<8>( dsp::chebyshev1_lp_hp( dsp::FilterResponse::low_pass, 100.0, 20, 30, 1, 40 ) ); ok = c.size() > 1;'],
 'dsp/chebyshev-design-io.hpp': ['auto co = dsp::chebyshev2_lp_hp( dsp::FilterResponse::high_pass, 100.0, 30, 20, 1, 40 ); std::ostringstream os; os << co.info; ok = os.str().size() > 20;'],
 'dsp/filter-design.hpp': ['ok = dsp::dbP( 10.0, 1.0 ) == 10 && dsp::dbV_factor( 20.0 ) > 9.99;', 'ok = dsp::prewarp( 25.0, 100.0 ) > 0.99;'],
 'dsp/filter.hpp': ['dsp::Lpf<double> f( 10, 100, 0.7 ); double y = 0; for ( int i = 0; i < 200; ++i ) y = f( 1 ); ok = y > 0.99 && y < 1.01;', 'dsp::Hpf<float> f( 10, 100, 0.7f ); float y = 1; for ( int i = 0; i < 200; ++i ) y = f( 1 ); ok = y < 0.01f;'],
 'dsp/kalman.hpp': ['using K = num::kalman<double,2,1,1>; K k( 1, K::A_t{ 1, 1, 0, 1 }, K::B_t{ 0.5, 1 }, K::H_t{ 1, 0 }, K::Q_t{ 1, 0, 0, 1 }, K::R_t{ 1 }, K::P_t{ 1, 0, 0, 1 }, K::xhat_t{ 0, 0 } ); k.update( K::u_t{ 1 }, K::z_t{ 1 } ); ok = k.system_state()( 0, 0 ) > 0;'],
 'dsp/kalman-io.hpp': ['num::matrix<int,1,2> m{ 3, 4 }; std::ostringstream os; os << m; ok = os.str() == " 3 4\\n";'],
 'dsp/onepole.hpp': ['dsp::OnePoleT<double> p( dsp::OnePoleT<double>::B{ 1 }, dsp::OnePoleT<double>::A{ -0.5 } ); p.step( 1 ); ok = p.step( 0 ) == 0.5;'],
 'dsp/onepole-io.hpp': ['dsp::OnePoleT<float> p( dsp::OnePoleT<float>::B{ 1 }, dsp::OnePoleT<float>::A{ -0.5f } ); std::ostringstream os; os << p; ok = os.str().find( "stable" ) != std::string::npos;'],
 'dsp/onepole-design.hpp': ['auto p = dsp::make_onepole( dsp::onepole_design<dsp::FilterResponse::low_pass>( 10.0, 100 ) ); ok = p.is_stable();'],
 'num/constants.hpp': ['ok = num::pi<double> > 3.14 && num::pi<float> < 3.15f;'],
 'num/fixed-point.hpp': ['num::fixed_point<int,15> a( 1.5 ), b( 2 ); ok = ( a * b ).as<int>() == 3;', 'using X = num::fixed_point<short,8>; ok = X( 0.5 ) + X( 0.5 ) == X( 1 );'],
 'num/fixed-point-io.hpp': ['std::ostringstream os; os << num::fixed_point<int,15>( 0.25 ); ok = os.str() == "0.25";'],
 'num/matrix.hpp': ['num::matrix<double,2,2> a{ 1, 2, 3, 4 }; ok = ( a * a )( 0, 0 ) == 7 && num::transposed( a )( 0, 1 ) == 3;', 'num::matrix<int,2,1> v{ 1, 2 }; ok = ( v + v )( 1, 0 ) == 4;'],
 'num/matrix-io.hpp': ['std::ostringstream os; os << num::matrix<int,2,1>{ 1, 2 }; ok = os.str() == " 1\\n 2\\n";'],
 'std/algorithm.hpp': ['int a[2] = { 1, 2 }, b[2] = { 0, 0 }; std20::copy( a, a + 2, b ); ok = std20::equal( a, a + 2, b ); std20::fill( a, a + 2, 5 ); ok = ok && a[1] == 5;'],
 'std/complex.hpp': ['std20::complex<double> z( 3, 4 ); ok = abs( z ) == 5 && z.real() == 3; auto p = std20::polar( 1.0, 0.0 ); ok = ok && p.imag() == 0;'],
 'std/cstdint.hpp': ['std20::int16_t s = 3; std20::int64_t l = 5; ok = sizeof( s ) == 2 && sizeof( l ) == 8 && sizeof( std20::int8_t ) == 1 && sizeof( std20::int32_t ) == 4;'],
 'std/limits.hpp': ['ok = std20::numeric_limits<short>::max() == 32767 && std20::numeric_limits<signed char>::min() == -128;'],
 'std/tuple.hpp': ['std20::tuple<int,double> t( 1, 2.5 ); ok = std::get<0>( t ) == 1; int a; std::tie( a, std20::ignore ) = t; ok = ok && a == 1;'],
 'std/type_traits.hpp': ['std20::remove_reference_t<int &> a = 3; ok = a == 3 && std20::is_integral_v<int> && std20::is_signed<int>::value;', 'std20::enable_if_t<true,int> a = 2; std20::remove_cv_t<int const> b = a; b += 1; ok = b == 3;'],
 'std/utility.hpp': ['int a = 1, b = 2; std20::swap( a, b ); ok = a == 2; int c = std20::move( a ); ok = ok && c == 2;'],
}
IO = '#include <sstream>\n#include <string>\n'

AVR = {
 'core/shims.hpp': ['long d = core::as<long>( (short) 3 ); ok = d == 3;'],
 'core/traits.hpp': USES['core/traits.hpp'],
 'dsp/biquad.hpp': ['dsp::BiQuadT<float> q( { 1, 0, 0 }, { 0, 0 } ); ok = q.step( 3 ) == 3 && q.is_stable();', 'auto r = dsp::response( dsp::BiQuadT<float>( { 2, 0, 0 }, { 0, 0 } ), 0.1f ); ok = r.real() == 2;'],
 'dsp/biquad-cascade.hpp': ['dsp::BiQuadCascadeT<float,3> c; c.append( dsp::BiQuadT<float>( { 2, 0, 0 }, { 0, 0 } ) ); ok = c.size() == 1 && step( c, 2 ) == 4 && is_stable( c );'],
 'dsp/onepole.hpp': ['dsp::OnePoleT<float> q( { 0.5f }, { -0.5f } ); ok = q.step( 1 ) == 0.5f && q.is_stable();'],
 'dsp/kalman.hpp': USES['dsp/kalman.hpp'],
 'num/constants.hpp': USES['num/constants.hpp'],
 'num/fixed-point.hpp': ['num::fixed_point<int,7> a( 1.5 ), b( 2 ); ok = ( a * b ).template as<int>() == 3;', 'using X = num::fixed_point<signed char,4>; ok = X( 0.5 ) + X( 0.5 ) == X( 1 );'],
 'num/matrix.hpp': USES['num/matrix.hpp'],
 'std/algorithm.hpp': USES['std/algorithm.hpp'],
 'std/complex.hpp': ['std20::complex<float> z( 3, 4 ); ok = z.real() == 3 && z.imag() == 4;'],
 'std/cstdint.hpp': USES['std/cstdint.hpp'],
 'std/limits.hpp': ['ok = std20::numeric_limits<int>::max() == 32767 && std20::numeric_limits<signed char>::min() == -128;'],
 'std/tuple.hpp': [],
 'std/type_traits.hpp': ['std20::remove_reference_t<int &> a = 3; ok = a == 3 && std20::is_integral<int>::value && std20::is_signed<int>::value;', 'std20::enable_if_t<true,int> a = 2; ok = a == 2;'],
 'std/utility.hpp': USES['std/utility.hpp'],
 'mcu/register.hpp': ['{ mcu::scoped_interrupt_guard _; } volatile unsigned char b = 1; b = 2; ok = b == 2;'],
 'mcu/atmega328.hpp': ['using namespace mcu::atmega328; using l = led<port::B,5>; l::enable(); l::on(); l::off(); l::toggle();', 'mcu::atmega328::tc1_pwm_on_a_pb1::init(); mcu::atmega328::tc1_pwm_on_a_pb1::write( 17 );', 'mcu::atmega328::core::scoped_sreg _;', 'using namespace mcu::atmega328::adc; set( prescale::factor::x64 );'],
}
SYSTEM = ['<vector>', '<cmath>', '<string>', '<iostream>', '<complex>', '<limits>', '<algorithm>', '<utility>', '<cassert>', '<tuple>', '<cstdint>', '<memory>', '<functional>']


def source(tu, k, n, avr):
    table = AVR if avr else USES
    out = []
    for h in tu['headers']:
        out.append('#include ' + (h if h.startswith('<') else '"%s"' % h))
    if not avr:
        out.append(IO)
    out.append('namespace {')
    names = []
    for i, (h, u) in enumerate(tu['uses']):
        f = 'use%d' % i
        names.append(f)
        out.append('bool %s() { bool ok = true; { %s } return ok; }     // %s' % (f, table[h][u], h))
    out.append('}')
    out.append('int file%d() { int bad = 0;' % k)
    for i, f in enumerate(names):
        out.append('    if ( !%s() ) bad = bad ? bad : %d;' % (f, i + 1))
    out.append('    return bad; }')
    if k == 0:
        for j in range(1, n):
            out.append('int file%d();' % j)
        out.append('int main() { int r = 0;' + ''.join(' if ( !r ) r = file%d();' % j for j in range(n)) + ' return r; }')
    return '\n'.join(out) + '\n'


def command(prog):
    if prog['compiler'] == 'avr':
        return ['avr-g++', '-std=c++17', '-Os', '-fno-threadsafe-statics', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-w']
    return [prog['compiler'], '-std=c++17', '-O0', '-w'] + (['-DNDEBUG'] if prog.get('ndebug') else [])


def execute(prog, tmp, inc):
    """None, or what went wrong"""
    avr = prog['compiler'] == 'avr'
    d = os.path.join(tmp, hashlib.sha1(json.dumps(prog).encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    try:
        files = []
        for k, tu in enumerate(prog['files']):
            p = os.path.join(d, 'file%d.cpp' % k)
            open(p, 'w').write(source(tu, k, len(prog['files']), avr))
            files.append(p)
        exe = os.path.join(d, 'prog')
        r = subprocess.run(command(prog) + ['-I' + inc, '-o', exe] + files, capture_output=True, text=True)
        if r.returncode:
            return 'does not compile or link:\n' + r.stderr[:3000]
        if avr:
            return None
        r = subprocess.run([exe], capture_output=True, text=True, timeout=60)
        if r.returncode:
            return 'program returns %d' % r.returncode + r.stderr[:500]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fails(prog, tmp, inc):
    return execute(prog, tmp, inc) is not None


def tu_of(rnd, table, order, repeats=0, system=0):
    hs = list(order)
    for _ in range(repeats):
        hs.insert(rnd.randrange(len(hs) + 1), rnd.choice(order))
    for _ in range(system):
        hs.insert(rnd.randrange(len(hs) + 1), rnd.choice(SYSTEM))
    uses = [(h, rnd.randrange(len(table[h]))) for h in dict.fromkeys(order) if table[h]]
    return {'headers': hs, 'uses': uses}


def generate(rnd, tier):
    cases = []
    hs, av = sorted(USES), sorted(AVR)
    # each header alone, all its uses
    for h in hs:
        for comp in ('g++', 'clang++'):
            cases.append({'kind': 'alone', 'compiler': comp, 'files': [{'headers': [h], 'uses': [(h, i) for i in range(len(USES[h]))]}]})
    for h in av:
        cases.append({'kind': 'alone', 'compiler': 'avr', 'files': [{'headers': [h], 'uses': [(h, i) for i in range(len(AVR[h]))]}]})
        cases.append({'kind': 'alone', 'compiler': 'avr', 'files': [{'headers': [h, h], 'uses': [(h, i) for i in range(len(AVR[h]))]}] * 2})
    # each header first, then all the others in random order; in two files
    for table, names, comps in ((USES, hs, ('g++', 'clang++')), (AVR, av, ('avr',))):
        for h in names:
            rest = [x for x in names if x != h]
            rnd.shuffle(rest)
            a = tu_of(rnd, table, [h] + rest)
            rnd.shuffle(rest)
            b = tu_of(rnd, table, rest + [h], repeats=3)
            cases.append({'kind': 'all', 'compiler': rnd.choice(comps), 'files': [a, b]})
    # random subsets, orders and splits
    for i in range(2500 if tier == 'thorough' else 70):
        comp = rnd.choice(['g++', 'clang++', 'avr'])
        table = AVR if comp == 'avr' else USES
        names = sorted(table)
        files = []
        for _ in range(rnd.randint(1, 3)):
            n = rnd.randint(1, 7)
            files.append(tu_of(rnd, table, rnd.sample(names, n), repeats=rnd.randint(0, 3), system=0 if comp == 'avr' else rnd.choice([0, 0, 2])))
        cases.append({'kind': 'random', 'compiler': comp, 'ndebug': comp != 'avr' and rnd.random() < 0.3, 'files': files})
    if tier == 'thorough':          # all ordered pairs
        for names, table, comp in ((hs, USES, 'g++'), (av, AVR, 'avr')):
            for a in names:
                for b in names:
                    if a != b:
                        cases.append({'kind': 'pair', 'compiler': comp, 'files': [tu_of(rnd, table, [a, b])]})
    return cases


def shrink(prog, tmp, inc, seconds=150):
    """fewer files, headers and uses, while it still fails; large pieces first, for a limited time"""
    end = time.time() + seconds

    def some(cands):
        """the first of the candidates that still fails"""
        for i in range(0, len(cands), 8):
            if time.time() > end:
                return None
            with cf.ThreadPoolExecutor(8) as ex:
                for p, bad in zip(cands[i:i + 8], ex.map(lambda p: bool(p['files']) and fails(p, tmp, inc), cands[i:i + 8])):
                    if bad:
                        return p
        return None

    while len(prog['files']) > 1:
        p = some([dict(prog, files=prog['files'][:k] + prog['files'][k + 1:]) for k in range(len(prog['files']))])
        if p is None:
            break
        prog = p
    for what in ('headers', 'uses', 'inclusions'):
        k = 0
        while k < len(prog['files']):
            tu = prog['files'][k]
            items = list(dict.fromkeys(tu['headers'])) if what == 'headers' else list(range(len(tu['uses'] if what == 'uses' else tu['headers'])))
            n = max(1, len(items) // 2)
            while n and items and time.time() < end:
                cands = []
                for i in range(0, len(items), n):
                    gone = items[i:i + n]
                    if what == 'headers':
                        t = {'headers': [h for h in tu['headers'] if h not in gone], 'uses': [u for u in tu['uses'] if u[0] not in gone]}
                    elif what == 'uses':
                        t = {'headers': tu['headers'], 'uses': [u for j, u in enumerate(tu['uses']) if j not in gone]}
                    else:
                        if any(tu['headers'].count(tu['headers'][j]) == 1 for j in gone):
                            continue
                        t = {'headers': [h for j, h in enumerate(tu['headers']) if j not in gone], 'uses': tu['uses']}
                        if any(u[0] not in t['headers'] for u in t['uses']):
                            continue
                    cands.append(dict(prog, files=prog['files'][:k] + [t] + prog['files'][k + 1:]))
                p = some(cands)
                if p is None:
                    n //= 2
                    continue
                prog = p; tu = prog['files'][k]
                items = list(dict.fromkeys(tu['headers'])) if what == 'headers' else list(range(len(tu['uses'] if what == 'uses' else tu['headers'])))
                n = min(n, max(1, len(items) // 2)) if items else 0
            k += 1
    return prog


def describe(prog):
    return prog['compiler'] + ': ' + ' | '.join(' '.join(h.replace('.hpp', '') for h in f['headers']) + ' (%d uses)' % len(f['uses']) for f in prog['files'])


def run(runpy, pid, tier, tmp, t0):
    inc = runpy.INC
    if '--replay' in sys.argv:
        text = open(sys.argv[sys.argv.index('--replay') + 1]).read()
        prog = json.loads(text.split('\nprogram: ', 1)[1].split('\n', 1)[0])
        e = execute(prog, tmp, inc)
        print(e or 'passes')
        return 1 if e else 0
    for p in (['g++', '--version'], ['clang++', '--version'], ['avr-g++', '--version']):
        if subprocess.run(p, capture_output=True).returncode:
            print('no', p[0]); return 2
    seed = int(os.environ['VERIF_SEED'])
    rnd = random.Random(seed * 7919 + 13)
    cases = generate(rnd, tier)
    bad = None
    done = 0
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {ex.submit(execute, c, tmp, inc): c for c in cases}
        for f in cf.as_completed(fut):
            done += 1
            if f.result() is not None:
                bad = fut[f]
                for g in fut:
                    g.cancel()
                break
    path = None
    if bad is not None:
        small = shrink(bad, tmp, inc)
        err = execute(small, tmp, inc)
        if err is None:
            print('unstable failure of', describe(bad)); return 2
        os.makedirs(os.path.join(runpy.ROOT, 'replays'), exist_ok=True)
        path = os.path.join(runpy.ROOT, 'replays', pid + '-' + hashlib.sha1(json.dumps(small).encode()).hexdigest()[:16] + '.txt')
        with open(path, 'w') as f:
            f.write('property: %s\nprogram: %s\n%s\ncommand: %s\n%s\n' % (pid, json.dumps(small), describe(small), ' '.join(command(small)), err))
            for k, tu in enumerate(small['files']):
                f.write('\n// ---- file%d.cpp\n' % k + source(tu, k, len(small['files']), small['compiler'] == 'avr'))
        print('failure:', describe(small), err[:1500])
    nontriv = [c for c in cases if sum(len(f['headers']) for f in c['files']) > 1]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': len({json.dumps([c['compiler'], c['files']]) for c in nontriv}) if bad is None else 0,
                       'rule': 'programs of 1-3 files with generated header sequences and uses of every included header, compiled with g++, clang++ or avr-g++, linked, and run on the desktop. Non-trivial: more than one inclusion.',
                       'kinds': {k: sum(c['kind'] == k for c in cases) for k in ('alone', 'all', 'random', 'pair')},
                       'compilers': {k: sum(c['compiler'] == k for c in cases) for k in ('g++', 'clang++', 'avr')},
                       'several_files': sum(len(c['files']) > 1 for c in cases),
                       'samples': [describe(c) for c in rnd.sample(cases, 6)]},
          'wall_s': time.time() - t0, 'violations': 1 if bad else 0}
    with open(os.environ.get('PBT_EVIDENCE') or os.path.join(runpy.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d programs, %.1f s' % (pid, tier, seed, done, time.time() - t0))
    if bad is not None:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
