"""A03: type traits and limits on the microcontroller equal the standard ones.

Cases are generated compile-time facts: random type expressions (base types, pointers, arrays, functions, cv and
reference qualifiers, sequences of the provided traits) whose standard value a model of C++ types in this file
computes; the AVR compiler evaluates the header's answer. A false or rejected fact is shrunk by dropping parts of the
type and saved as the replay file."""
import concurrent.futures as cf, hashlib, json, os, random, subprocess, sys, time

# ---- model of types: ('base', name) | ('ptr', T) | ('arr', T, n) | ('fun', T) | ('cv', T, const, volatile) | ('ref', T, '&'|'&&')
# widths and signedness of the built-in types of the target, from the AVR ABI
INTS = {'signed char': (8, True), 'unsigned char': (8, False), 'int': (16, True), 'unsigned int': (16, False), 'long': (32, True), 'unsigned long': (32, False),
        'long long': (64, True), 'unsigned long long': (64, False)}
ALIAS = {'std20::int8_t': 'signed char', 'std20::int16_t': 'int', 'std20::int32_t': 'long', 'std20::int64_t': 'long long', '::int8_t': 'signed char', '::uint8_t': 'unsigned char',
         '::int16_t': 'int', '::uint16_t': 'unsigned int', '::int32_t': 'long', '::uint32_t': 'unsigned long', '::int64_t': 'long long', '::uint64_t': 'unsigned long long',
         'decltype( 1 )': 'int', 'decltype( 1u + 1 )': 'unsigned int', 'decltype( 1L * 2u )': 'long', 'decltype( 1LL )': 'long long', 'decltype( sizeof 1 )': 'unsigned int', 'decltype( 1.0f )': 'float', 'decltype( 1.0 )': 'double',
         "decltype( 'a' + 0UL )": 'unsigned long'}
FLOATS = ['float', 'double']
OTHER = ['char', 'bool', 'short', 'unsigned short', 'S', 'E', 'P<int>', 'void']
NUM = list(INTS) + FLOATS


def base(n): return ('base', ALIAS.get(n, n))


def cv(t, c, v):
    if not (c or v) or t[0] in ('ref', 'fun'): return t          # references and functions have no cv
    if t[0] == 'arr': return ('arr', cv(t[1], c, v), t[2])
    if t[0] == 'cv': return ('cv', t[1], t[2] or c, t[3] or v)
    return ('cv', t, c, v)


def ref(t, r):
    if t[0] == 'ref': return ('ref', t[1], '&' if '&' in (r, t[2]) else '&&')
    return ('ref', t, r)


def uncv(t, c, v):
    if t[0] == 'arr': return ('arr', uncv(t[1], c, v), t[2])
    if t[0] != 'cv': return t
    cc, vv = t[2] and not c, t[3] and not v
    return ('cv', t[1], cc, vv) if cc or vv else t[1]


TRAITS = {'remove_reference': lambda t: t[1] if t[0] == 'ref' else t, 'remove_const': lambda t: uncv(t, True, False), 'remove_volatile': lambda t: uncv(t, False, True), 'remove_cv': lambda t: uncv(t, True, True)}


def unbounded(t): return t[0] == 'arr' and t[2] == 0


def void(t): return t == ('base', 'void') or t[0] == 'cv' and void(t[1])


# an expression is a text together with its type; the text is built from typedef-like templates so that nesting is always valid
def gen(rnd, depth):
    k = rnd.random()
    if depth <= 0 or k < 0.25:
        n = rnd.choice(list(INTS) + FLOATS + OTHER + list(ALIAS))
        return n, base(n)
    s, t = gen(rnd, depth - 1)
    k = rnd.randrange(12)
    if k < 4:
        c, v = rnd.choice([(1, 0), (0, 1), (1, 1)])
        return 'add<%s,%d,%d>' % (s, c, v), cv(t, bool(c), bool(v))
    if k < 6 and not void(t):
        r = rnd.choice(['&', '&&'])
        return ('lref<%s>' if r == '&' else 'rref<%s>') % s, ref(t, r)
    if k == 6 and t[0] != 'ref':
        return 'ptr<%s>' % s, ('ptr', t)
    if k == 7 and t[0] not in ('ref', 'fun') and not void(t) and not unbounded(t):
        n = rnd.choice([1, 3, 0])
        return ('arr<%s,%d>' % (s, n) if n else 'uarr<%s>' % s), ('arr', t, n)
    if k == 8 and t[0] not in ('arr', 'fun', 'cv'):
        return 'fun<%s>' % s, ('fun', t)
    tr = rnd.choice(sorted(TRAITS))
    e = TRAITS[tr](t)
    return ('typename_<std20::%s<%s>>' % (tr, s) if rnd.random() < 0.5 else 'std20::%s_t<%s>' % (tr, s)), e


def spell(t):
    """the type itself, by the harness's own templates"""
    k = t[0]
    if k == 'base': return t[1]
    if k == 'ptr': return 'ptr<%s>' % spell(t[1])
    if k == 'arr': return 'arr<%s,%d>' % (spell(t[1]), t[2]) if t[2] else 'uarr<%s>' % spell(t[1])
    if k == 'fun': return 'fun<%s>' % spell(t[1])
    if k == 'ref': return ('lref<%s>' if t[2] == '&' else 'rref<%s>') % spell(t[1])
    return 'add<%s,%d,%d>' % (spell(t[1]), t[2], t[3])


PRELUDE = '''#include <stdint.h>
%s
struct S { int x; }; enum E { e0 }; template< typename T > struct P { T x; };
template< typename T > using ptr = T *; template< typename T, int N > using arr = T[N]; template< typename T > using uarr = T[]; template< typename T > using fun = T ( char );
template< typename T > using lref = T &; template< typename T > using rref = T &&;
template< typename T, bool C, bool V > struct add_ { using type = T; };
template< typename T > struct add_<T,true,false> { using type = T const; }; template< typename T > struct add_<T,false,true> { using type = T volatile; }; template< typename T > struct add_<T,true,true> { using type = T const volatile; };
template< typename T, bool C, bool V > using add = typename add_<T,C,V>::type;
template< typename T > using typename_ = typename T::type;
template< typename T, typename U > struct eq { static constexpr bool value = false; }; template< typename T > struct eq<T,T> { static constexpr bool value = true; };
template< typename T > struct tag {};
template< typename... > using void_ = void;
template< typename T, typename = void > struct has_type { static constexpr bool value = false; }; template< typename T > struct has_type<T, void_<typename T::type>> { static constexpr bool value = true; };
template< typename T, std20::enable_if_t< std20::is_integral<T>::value, int > = 0 > constexpr int choose( T ) { return 1; }
template< typename T, std20::enable_if_t< !std20::is_integral_v<T>, int > = 0 > constexpr int choose( T ) { return 2; }
template< typename T > constexpr typename std20::enable_if< std20::is_signed<T>::value, int >::type sign( T ) { return 1; }
template< typename T > constexpr typename std20::enable_if< !std20::is_signed_v<T>, int >::type sign( T ) { return 2; }
'''
HEADERS = ['std/limits.hpp', 'std/type_traits.hpp', 'std/cstdint.hpp', 'std/tuple.hpp', 'std/utility.hpp']


def lit(v, bits, signed):
    if not signed: return '%dULL' % v
    return '( -%dLL - 1 )' % (-v - 1) if v < 0 else '%dLL' % v


def fact(rnd):
    """(class, C++ condition, parts to shrink)"""
    k = rnd.randrange(10)
    n = rnd.choice(NUM + list(ALIAS))
    b = ALIAS.get(n, n)
    integer = b in INTS
    bits, signed = INTS.get(b, (0, True))
    L = 'std20::numeric_limits<%s>' % n
    tf = lambda x: 'true' if x else 'false'
    if k == 0:
        q = rnd.choice(['is_integer', 'is_signed'])
        return 'limits flags', '%s::%s == %s && eq<decltype( %s::%s ), bool const>::value' % (L, q, tf(integer if q == 'is_integer' else signed), L, q)
    if k == 1 and integer:
        hi = 2 ** (bits - signed) - 1
        lo = -hi - 1 if signed else 0
        w = rnd.randrange(5)
        if w == 0: return 'limits digits', '%s::digits == %d' % (L, bits - signed)
        if w == 1: return 'limits extremes', '%s::max() == %s && eq<decltype( %s::max() ), %s>::value' % (L, lit(hi, bits, signed), L, b)
        if w == 2: return 'limits extremes', '%s::min() == %s && eq<decltype( %s::min() ), %s>::value' % (L, lit(lo, bits, signed), L, b)
        # relations that define the extremes, on the type's own arithmetic
        if w == 3: return 'limits relations', '%s::max() > %s::min() && (%s)( (unsigned long long) %s::max() + 1 ) == %s::min()' % (L, L, b, L, L)
        v = rnd.choice([rnd.randint(lo, hi), rnd.randint(-3, 3), lo, hi])
        v = min(hi, max(lo, v))
        return 'limits relations', '(%s) %s <= %s::max() && %s::min() <= (%s) %s' % (b, lit(v, bits, signed), L, L, b, lit(v, bits, signed))
    if k == 2:
        q, e = rnd.choice([('is_integral', integer), ('is_signed', signed)])
        form = rnd.choice(['std20::%s<%s>::value', 'std20::%s_v<%s>', 'std20::%s<%s>()', 'std20::%s<%s>()()', 'std20::%s<%s>::type::value'])
        return 'predicates', 'bool( ' + form % (q, n) + ' ) == %s' % tf(e)
    if k == 3:
        a, ta = gen(rnd, rnd.randint(0, 3))
        if rnd.random() < 0.5:
            c, tc = gen(rnd, rnd.randint(0, 3))
        else:       # the same type written differently, or differing in one qualifier
            tc = ta if rnd.random() < 0.6 else rnd.choice([cv(ta, True, False), cv(ta, False, True), ta if void(ta) else ref(ta, '&&'), uncv(ta, True, False)])
            c = spell(tc)
        return 'is_same', 'bool( ' + rnd.choice(['std20::is_same<%s,%s>::value', 'std20::is_same_v<%s,%s>', 'std20::is_same<%s,%s>()']) % (a, c) + ' ) == %s' % tf(ta == tc)
    if k in (4, 5, 6):
        s, t = gen(rnd, rnd.randint(1, 5))
        tr = rnd.choice(sorted(TRAITS))
        x = rnd.choice(['std20::%s_t<%s>', 'typename_<std20::%s<%s>>']) % (tr, s)
        return tr, 'eq< %s, %s >::value' % (x, spell(TRAITS[tr](t)))
    if k == 7:
        w = rnd.randrange(4)
        cond, val = rnd.choice([('true', True), ('false', False), ('std20::is_integral_v<%s>' % n, integer), ('!std20::is_signed<%s>::value' % n, not signed), ('( sizeof( %s ) > 2 )' % n, {8: 1, 16: 2, 32: 4, 64: 8, 0: 4}[bits] > 2)])
        s, t = gen(rnd, 2)
        if w == 0: return 'enable_if', 'has_type< std20::enable_if< %s, %s > >::value == %s' % (cond, s, tf(val))
        if w == 1 and val: return 'enable_if', 'eq< std20::enable_if_t< %s, %s >, %s >::value && eq< std20::enable_if_t< %s >, void >::value' % (cond, s, spell(t), cond)
        if w == 2: return 'enable_if', 'choose( (%s) 1 ) == %d' % (n, 1 if integer else 2)
        return 'enable_if', 'sign( (%s) 1 ) == %d' % (n, 1 if signed else 2)
    if k == 8 and integer:
        hi = 2 ** (bits - signed) - 1
        v = rnd.choice([0, 1, hi, rnd.randint(0, hi), rnd.randint(-hi - 1 if signed else 0, hi)])
        I = 'std20::integral_constant<%s, (%s) %s>' % (n, n, lit(v, bits, signed))
        return 'integral_constant', rnd.choice(['%(I)s::value == %(v)s', '%(I)s()() == %(v)s', '(%(n)s) %(I)s() == %(v)s', 'eq<%(I)s::value_type, %(b)s>::value', 'eq<%(I)s::type, %(I)s>::value', 'noexcept( %(I)s()() )']) % dict(I=I, v='(%s) %s' % (n, lit(v, bits, signed)), n=n, b=b)
    w = rnd.randrange(3)
    if w == 0:
        a = rnd.choice([x for x in ALIAS if x.startswith('std20')])
        return 'fixed-width types', 'eq< %s, %s >::value && sizeof( %s ) * 8 == %d' % (a, ALIAS[a], a, INTS[ALIAS[a]][0])
    if w == 1:
        x = rnd.choice(['true', 'false'])
        return 'true_type', 'std20::%s_type::value == %s && eq< std20::%s_type, std20::integral_constant<bool,%s> >::value' % (x, x, x, x)
    s = rnd.choice(['1', '2.5f', "'x'", 'S{ 3 }', '(int const *) nullptr'])
    return 'ignore', 'sizeof( std20::ignore = %s ) > 0' % s


def command(inc):
    return ['avr-g++', '-std=c++17', '-Os', '-fno-threadsafe-statics', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-w', '-fsyntax-only', '-fmax-errors=0', '-x', 'c++', '-I' + inc, '-']


def source(facts, rnd=None):
    hs = list(HEADERS)
    if rnd: rnd.shuffle(hs)
    return PRELUDE % '\n'.join('#include "%s"' % h for h in hs) + ''.join('static_assert( %s, "" );\n' % f for f in facts)


def wrong(facts, inc):
    """None, or the compiler's complaint"""
    r = subprocess.run(command(inc), input=source(facts), capture_output=True, text=True)
    return r.stderr[:2000] if r.returncode else None


def first_bad(facts, inc):
    while len(facts) > 1:
        h = len(facts) // 2
        facts = facts[:h] if wrong(facts[:h], inc) else facts[h:]
    return facts[0]


def run(runpy, pid, tier, tmp, t0):
    inc = runpy.INC
    if '--replay' in sys.argv:
        text = open(sys.argv[sys.argv.index('--replay') + 1]).read()
        f = text.split('\nfact: ', 1)[1].split('\n', 1)[0]
        e = wrong([f], inc)
        print(e or 'passes')
        return 1 if e else 0
    if subprocess.run(['avr-g++', '-std=c++17', '-mmcu=atmega328p', '-fsyntax-only', '-x', 'c++', '-'], input='#include <stdint.h>\nint main(){}', text=True, capture_output=True).returncode:
        print('avr-g++ does not work'); return 2
    seed = int(os.environ['VERIF_SEED'])
    rnd = random.Random(seed * 104729 + 5)
    batches = [[fact(rnd) for _ in range(400)] for _ in range(6000 if tier == "thorough" else 300)]
    bad = None
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {ex.submit(wrong, [f for _, f in b], inc): b for b in batches}
        for f in cf.as_completed(fut):
            if f.result() is not None:
                bad = [x for _, x in fut[f]]
                for g in fut: g.cancel()
                break
    path = None
    if bad is not None:
        f = first_bad(bad, inc)
        # smaller: the shortest failing fact among many of the same kind
        kinds = {x: k for b in batches for k, x in b}
        same = sorted({x for b in batches for k, x in b if k == kinds[f] and len(x) < len(f)}, key=len)[:60]
        with cf.ThreadPoolExecutor(8) as ex:
            for x, e in zip(same, ex.map(lambda x: wrong([x], inc), same)):
                if e: f = x; break
        err = wrong([f], inc)
        if err is None:
            print('unstable failure'); return 2
        os.makedirs(os.path.join(runpy.ROOT, 'replays'), exist_ok=True)
        path = os.path.join(runpy.ROOT, 'replays', pid + '-' + hashlib.sha1(f.encode()).hexdigest()[:16] + '.txt')
        with open(path, 'w') as o:
            o.write('property: %s\nfact: %s\ncommand: %s\n%s\n\n%s' % (pid, f, ' '.join(command(inc)), err, source([f])))
        print('failure: on the AVR this does not hold:', f)
        print(err[:600])
    allf = [x for b in batches for x in b]
    distinct = {x for _, x in allf}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': len(allf), 'distinct_nontrivial': len(distinct) if bad is None else 0,
                       'rule': 'facts about numeric limits, predicates, is_same, the remove_ traits on random nested type expressions, enable_if (existence, type, overload choice), integral_constant, fixed-width types and ignore, evaluated by avr-g++ at compile time. Non-trivial: distinct facts.',
                       'classes': {k: sum(c == k for c, _ in allf) for k in sorted({c for c, _ in allf})},
                       'samples': ['%s: %s' % x for x in rnd.sample(allf, 8)]},
          'wall_s': time.time() - t0, 'violations': 1 if bad else 0}
    with open(os.environ.get('PBT_EVIDENCE') or os.path.join(runpy.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d facts, %d distinct, %.1f s' % (pid, tier, seed, len(allf), len(distinct), time.time() - t0))
    if bad is not None:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
