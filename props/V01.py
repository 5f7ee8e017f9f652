"""V01: an expression has the same value in a constant expression and at run time.

Cases are generated constexpr functions over matrices, fixed-point numbers, complex numbers (AVR), the algorithm
stand-ins and filter sections.  The oracle is exact arithmetic in this program: static_assert compares the value
the compiler computes, the program compares the value computed at run time from operands hidden from the optimiser.
Programs are compiled by g++, clang++ (C++17, C++20) and avr-g++ (C++17, static_assert only).  A failing program is
reduced to one expression and then to its smallest failing part."""
import concurrent.futures as cf, hashlib, json, os, random, subprocess, sys, time
from fractions import Fraction

# ------------------------------------------------------------------ kinds of numbers
FIX = {'X15': ('std20::int32_t', 32, 16, 15), 'X20': ('std20::int32_t', 32, 11, 20), 'X7': ('std20::int16_t', 16, 8, 7), 'X3': ('std20::int8_t', 8, 4, 3), 'X0': ('std20::int16_t', 16, 15, 0)}
INT = {'I16': ('std20::int16_t', 16), 'I32': ('std20::int32_t', 32)}
FLT = {'F': ('float', 24), 'D': ('double', 53)}
TYPES = ''.join('using %s = num::fixed_point<%s,%d>;\n' % (k, v[0], v[2]) for k, v in FIX.items()) + ''.join('using %s = %s;\n' % (k, v[0]) for k, v in list(INT.items()) + list(FLT.items()))


class Out(Exception):
    """outside of what the property promises: overflow, inexact, division by zero"""


def fit(k, v):
    if k in FIX or k in INT:
        b = (FIX.get(k) or INT[k])[1]
        if not -(1 << (b - 1)) <= v < (1 << (b - 1)):
            raise Out
    else:
        d = v.denominator
        if abs(v.numerator) >= 1 << min(FLT[k][1], 23) or d > 1 << 40:
            raise Out
    return v


def lit(k, v):
    if k in FIX: return '%s( %s::construct, %d )' % (k, k, v)
    if k in INT: return '%s( %d )' % (k, v)
    return '%s( %s )' % (k, repr(float(v)))


def same(k, e, v):
    if k in FIX: return '%s.underlying_value() == %d' % (e, v)
    if k in INT: return '%s == %d' % (e, v)
    return '%s == %s' % (e, lit(k, v))


def s_mul(k, a, b): return fit(k, (a * b) >> FIX[k][3] if k in FIX else a * b)


def s_div(k, a, b):
    if b == 0: raise Out
    if k in FIX:
        n = a << FIX[k][3]
        q = abs(n) // abs(b)
        return fit(k, q if (n < 0) == (b < 0) else -q)
    if k in INT:
        q = abs(a) // abs(b)
        return fit(k, q if (a < 0) == (b < 0) else -q)
    return fit(k, a / b if b and (abs(b.numerator) & (abs(b.numerator) - 1)) == 0 else out())


def out(): raise Out


def s_add(k, a, b): return fit(k, a + b)
def s_sub(k, a, b): return fit(k, a - b)


def rnd_scalar(r, k):
    if k in FIX:
        b, f = FIX[k][1], FIX[k][3]
        c = r.randrange(4)
        if c == 0: return max(-(1 << (b - 1)), min((1 << (b - 1)) - 1, r.randint(-3, 3) << f))
        if c == 1: return r.randint(-4, 4)
        if c == 2: return r.randint(-(1 << (b // 2)), 1 << (b // 2))
        return r.randint(-(1 << (b - 1)), (1 << (b - 1)) - 1) >> r.randint(0, b // 2)
    if k in INT: return r.choice([r.randint(-3, 3), r.randint(-100, 100), r.randint(-30000, 30000)])
    return Fraction(r.randint(-200, 200), r.choice([1, 1, 2, 4, 8]))


# ------------------------------------------------------------------ expressions: trees
# ('p', kind, shape, values)      an operand; shape None for a scalar
# (op, args...)                   value(tree) -> (kind, shape, values); code(tree, params) -> C++
BIN = {'add': ('+', s_add), 'sub': ('-', s_sub), 'mul': ('*', s_mul), 'div': ('/', s_div)}


def value(t):
    op = t[0]
    if op == 'p': return t[1], t[2], t[3]
    if op in BIN:                                       # scalar op scalar
        (k, s, a), (_, _, b) = value(t[1]), value(t[2])
        return k, None, [BIN[op][1](k, a[0], b[0])]
    if op in ('cadd', 'csub', 'cmul', 'cdiv'):          # compound assignment
        (k, s, a), (_, _, b) = value(t[1]), value(t[2])
        return k, None, [BIN[op[1:]][1](k, a[0], b[0])]
    if op in ('neg', 'pos'):
        k, s, a = value(t[1])
        return k, s, [fit(k, -v if op == 'neg' else v) for v in a]
    if op in ('madd', 'msub'):
        (k, s, a), (_, _, b) = value(t[1]), value(t[2])
        return k, s, [BIN[op[1:]][1](k, x, y) for x, y in zip(a, b)]
    if op in ('msadd', 'smadd', 'mssub', 'msmul', 'smmul'):
        m, v = (value(t[1]), value(t[2])) if op[0:2] == 'ms' else (value(t[2]), value(t[1]))
        k, s, a = m; b = v[2][0]
        f = op[2:]
        if f == 'sub': fit(k, -b)
        return k, s, [BIN[f][1](k, x, b) for x in a]
    if op == 'mm':
        (k, (n, m), a), (_, (m2, q), b) = value(t[1]), value(t[2])
        r = []
        for i in range(n):
            for j in range(q):
                s = 0 if k not in FLT else Fraction(0)
                for l in range(m):
                    s = s_add(k, s, s_mul(k, a[i * m + l], b[l * q + j]))
                r.append(s)
        return k, (n, q), r
    if op == 'dot':
        (k, s, a), (_, _, b) = value(t[1]), value(t[2])
        r = 0 if k not in FLT else Fraction(0)
        for x, y in zip(a, b): r = s_add(k, r, s_mul(k, x, y))
        return k, None, [r]
    if op == 'tr':
        k, (n, m), a = value(t[1])
        return k, (m, n), [a[i * m + j] for j in range(m) for i in range(n)]
    if op == 'inv2':                                    # symmetric operands only: see M04
        k, s, (a, b, c, d) = value(t[1])
        if b != c: raise Out
        one = 1 << FIX[k][3] if k in FIX else Fraction(1)
        q = s_div(k, fit(k, one), s_sub(k, s_mul(k, a, d), s_mul(k, b, c)))
        n = fit(k, -q)
        return k, s, [s_mul(k, q, d), s_mul(k, n, b), s_mul(k, n, c), s_mul(k, q, a)]
    if op == 'inv1':
        k, s, a = value(t[1])
        if a[0] == 0: return k, None, [a[0]]
        return k, None, [s_div(k, fit(k, 1 << FIX[k][3]) if k in FIX else 1 if k in INT else Fraction(1), a[0])]
    if op == 'at':
        k, (n, m), a = value(t[1])
        return k, None, [a[t[2] * m + t[3]]]
    if op == 'sum':
        k, s, a = value(t[1])
        r = 0 if k not in FLT else Fraction(0)
        for x in a: r = s_add(k, r, x)
        return k, None, [r]
    if op == 'put':
        (k, (n, m), a), (_, _, v) = value(t[1]), value(t[2])
        a = list(a); a[t[3] * m + t[4]] = v[0]
        return k, (n, m), a
    if op == 'each':
        (k, s, a), (_, _, v) = value(t[1]), value(t[2])
        return k, s, [s_add(k, x, v[0]) for x in a]
    if op == 'eye': return t[1], (t[2], t[2]), [(1 << FIX[t[1]][3] if t[1] in FIX else Fraction(1) if t[1] in FLT else 1) if i == j else (Fraction(0) if t[1] in FLT else 0) for i in range(t[2]) for j in range(t[2])]
    if op == 'full': k, s, v = value(t[1]); return k, (t[2], t[3]), v * (t[2] * t[3])
    if op in CMP: (k, s, a), (_, _, b) = value(t[1]), value(t[2]); return 'B', None, [CMP[op][1](a[0], b[0])]
    if op == 'equal': (k, s, a), (_, _, b) = value(t[1]), value(t[2]); return 'B', None, [a == b]
    if op == 'swap': (k, s, a), (_, _, b) = value(t[1]), value(t[2]); return k, s, b
    if op == 'copyfill':                                # the first n elements are kept, the others take the value
        (k, s, a), (_, _, v) = value(t[1]), value(t[2])
        return k, s, a[:t[3]] + v * (len(a) - t[3])
    if op == 'ofint':
        k, n = t[1], t[2]
        return k, None, [fit(k, n << FIX[k][3])]
    if op == 'ofdouble':                                # nearest, ties away from zero
        k, v = t[1], Fraction(t[2]) * (1 << FIX[t[1]][3])
        q = int(abs(v) + Fraction(1, 2))
        return k, None, [fit(k, q if v >= 0 else -q)]
    if op == 'asint':
        k, s, a = value(t[1])
        q = abs(a[0]) >> FIX[k][3]
        return 'I32', None, [q if a[0] >= 0 else -q]
    if op == 'asdouble': k, s, a = value(t[1]); return 'D', None, [Fraction(a[0], 1 << FIX[k][3])]
    if op == 'rep': k, s, a = value(t[1]); return 'I32', None, a
    if op == 'lim': k = t[1]; b = FIX[k][1]; return k, None, [(1 << (b - 1)) - 1 if t[2] == 'max' else -(1 << (b - 1))]
    raise ValueError(op)


CMP = {'eq': ('==', lambda a, b: a == b), 'ne': ('!=', lambda a, b: a != b), 'lt': ('<', lambda a, b: a < b), 'le': ('<=', lambda a, b: a <= b), 'gt': ('>', lambda a, b: a > b), 'ge': ('>=', lambda a, b: a >= b)}


def mtype(k, s): return 'num::matrix<%s,%d,%d>' % (k, s[0], s[1]) if s else k


def code(t, ps):
    op = t[0]
    if op == 'p':
        ps.append(t)
        return 'p%d' % (len(ps) - 1)
    if op in BIN: return '( %s %s %s )' % (code(t[1], ps), BIN[op][0], code(t[2], ps))
    if op in ('cadd', 'csub', 'cmul', 'cdiv'): k = value(t)[0]; return 'compound_%s( %s, %s )' % (op[1:], code(t[1], ps), code(t[2], ps))
    if op == 'neg': return '( -%s )' % code(t[1], ps)
    if op == 'pos': return '( +%s )' % code(t[1], ps)
    if op in ('madd', 'msadd', 'smadd'): return '( %s + %s )' % (code(t[1], ps), code(t[2], ps))
    if op in ('msub', 'mssub'): return '( %s - %s )' % (code(t[1], ps), code(t[2], ps))
    if op in ('msmul', 'smmul', 'mm', 'dot'): return '( %s * %s )' % (code(t[1], ps), code(t[2], ps))
    if op == 'tr': return 'num::transposed( %s )' % code(t[1], ps)
    if op in ('inv1', 'inv2'): return 'num::inverted( %s )' % code(t[1], ps)
    if op == 'at': return '%s( %d, %d )' % (code(t[1], ps), t[2], t[3]) if t[4] == 0 else '%s.at( %d, %d )' % (code(t[1], ps), t[2], t[3])
    if op == 'sum': return 'sum_of<%s>( %s )' % (value(t)[0], code(t[1], ps))
    if op == 'put': return 'put_at( %s, %d, %d, %s )' % (code(t[1], ps), t[3], t[4], code(t[2], ps))
    if op == 'each': return 'each_plus( %s, %s )' % (code(t[1], ps), code(t[2], ps))
    if op == 'eye': return 'num::eye<%s,%d>()' % (t[1], t[2])
    if op == 'full': return '%s( %s )' % (mtype(t[1][1] if t[1][0] == 'p' else value(t[1])[0], (t[2], t[3])), code(t[1], ps))
    if op in CMP: return '( %s %s %s )' % (code(t[1], ps), CMP[op][0], code(t[2], ps))
    if op == 'equal': return 'equal_elements( %s, %s )' % (code(t[1], ps), code(t[2], ps))
    if op == 'swap': return 'swapped( %s, %s )' % (code(t[1], ps), code(t[2], ps))
    if op == 'copyfill': return 'copy_fill( %s, %s, %d )' % (code(t[1], ps), code(t[2], ps), t[3])
    if op == 'ofint': return '%s( %d )' % (t[1], t[2])
    if op == 'ofdouble': return '%s( %s )' % (t[1], repr(t[2]))
    if op == 'asint': return '%s.template as<std20::int32_t>()' % code(t[1], ps)
    if op == 'asdouble': return '%s.as_double()' % code(t[1], ps)
    if op == 'rep': return 'std20::int32_t( %s.underlying_value() )' % code(t[1], ps)
    if op == 'lim': return '%s( %s::construct, 0 ).%s()' % (t[1], t[1], t[2])
    raise ValueError(op)


def subtrees(t):
    for a in t[1:]:
        if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in OPS:
            if a[0] != 'p': yield a
            yield from subtrees(a)


OPS = {'p', 'cadd', 'csub', 'cmul', 'cdiv', 'neg', 'pos', 'madd', 'msub', 'msadd', 'smadd', 'mssub', 'msmul', 'smmul', 'mm', 'dot', 'tr', 'inv1', 'inv2', 'at', 'sum', 'put', 'each', 'eye', 'full', 'equal', 'swap', 'copyfill', 'ofint', 'ofdouble', 'asint', 'asdouble', 'rep', 'lim'} | set(BIN) | set(CMP)

HEAD = '''#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "std/algorithm.hpp"
#include "std/utility.hpp"
''' + TYPES + '''
template< typename T > constexpr T compound_add( T a, T b ) { a += b; return a; }
template< typename T > constexpr T compound_sub( T a, T b ) { a -= b; return a; }
template< typename T > constexpr T compound_mul( T a, T b ) { a *= b; return a; }
template< typename T > constexpr T compound_div( T a, T b ) { a /= b; return a; }
template< typename T, typename M > constexpr T sum_of( M const & m ) { T s = T( 0 ); for ( auto v : m ) s += v; return s; }
template< typename M, typename T > constexpr M put_at( M m, int i, int j, T v ) { m( i, j ) = v; return m; }
template< typename M, typename T > constexpr M each_plus( M m, T v ) { for ( auto & x : m ) x += v; return m; }
template< typename M > constexpr bool equal_elements( M const & a, M const & b ) { return std20::equal( a.begin(), a.end(), b.begin() ); }
template< typename M > constexpr M swapped( M a, M b ) { using std20::swap; swap( a, b ); return a; }
template< typename M, typename T > constexpr M copy_fill( M const & a, T v, int n ) { M r( v ); r = M( v ); std20::fill( r.begin(), r.end(), T( 0 ) ); auto at = std20::copy( a.begin(), a.begin() + n, r.begin() ); std20::fill( at, r.end(), v ); return r; }
'''
HOSTED = '''#include <cstdio>
template< typename T > __attribute__((noinline)) T hidden( T v ) { asm volatile( "" : : "r"( &v ) : "memory" ); return v; }
int bad = 0;
void check( int k, bool ok ) { if ( !ok ) { std::printf( "run-time value of expression %d\\n", k ); bad = 1; } }
'''


def item_source(t, i, hosted):
    """(declarations, statements of main)"""
    k, s, v = value(t)
    ps = []
    e = code(t, ps)
    pt = [mtype(p[1], p[2]) for p in ps]
    args = [('%s{ %s }' % (mtype(p[1], p[2]), ', '.join(lit(p[1], x) for x in p[3]))) if p[2] else lit(p[1], p[3][0]) for p in ps]
    o = 'constexpr auto f%d( %s ) { return %s; }\n' % (i, ', '.join('%s p%d' % (a, j) for j, a in enumerate(pt)), e)
    o += 'constexpr auto c%d = f%d( %s );\n' % (i, i, ', '.join(args))

    def conds(name):
        if k == 'B': return ['%s == %s' % (name, 'true' if v[0] else 'false')]
        if s is None: return [same(k, name, v[0])]
        return ['%s.rows() == %d && %s.columns() == %d' % (name, s[0], name, s[1])] + [same(k, '%s( %d, %d )' % (name, j // s[1], j % s[1]), x) for j, x in enumerate(v)]
    for c in conds('c%d' % i):
        o += 'static_assert( %s, "expression %d" );\n' % (c, i)
    m = ''
    if hosted:
        m = '    { auto const r = f%d( %s ); check( %d, %s ); }\n' % (i, ', '.join('hidden( %s )' % a for a in args), i, ' && '.join(conds('r')))
    return o, m


def source(prog):
    hosted = prog['compiler'] != 'avr'
    d = [item_source(t, i, hosted) for i, t in enumerate(prog['items'])]
    return HEAD + (HOSTED if hosted else '') + '\n'.join(a for a, _ in d) + '\nint main()\n{\n' + ''.join(b for _, b in d) + ('    return bad;\n}\n' if hosted else '}\n')


# ------------------------------------------------------------------ generator
AVR_NOW = [False]          # double has single precision on the AVR: only numbers it can represent


def operand(r, k, s=None): return ('p', k, s, [rnd_scalar(r, k) for _ in range(s[0] * s[1] if s else 1)])


def gen_scalar(r, k, d):
    if d == 0: return operand(r, k)
    c = r.randrange(14)
    if k in FIX:
        if c == 0: return ('ofint', k, r.randint(-7, 7))
        if c == 1: return ('ofdouble', k, r.choice([-1, 1]) * r.randint(0, 6000) / r.choice([1024, 64] if AVR_NOW[0] else [1000, 1024, 7, 3]))
        if c == 2: return ('lim', k, r.choice(['min', 'max']))
        if c == 3: return ('inv1', gen_scalar(r, k, d - 1))
    if c == 4: return (r.choice(['neg', 'pos']) if k not in INT else 'pos' if k == 'I32' else 'cadd', gen_scalar(r, k, d - 1)) if k != 'I16' else ('cadd', gen_scalar(r, k, d - 1), operand(r, k))
    if c == 5: n = r.randint(2, 3); return ('dot', gen_matrix(r, k, (1, n), d - 1), gen_matrix(r, k, (n, 1), d - 1))
    if c == 6: s = shape(r); return ('at', gen_matrix(r, k, s, d - 1), r.randrange(s[0]), r.randrange(s[1]), r.randrange(2))
    if c == 7: return ('sum', gen_matrix(r, k, shape(r), d - 1))
    if c < 10: return (r.choice(['cadd', 'csub', 'cmul'] + (['cdiv'] if k in FIX else [])), gen_scalar(r, k, d - 1), gen_scalar(r, k, d - 1))
    if k == 'I16': return (r.choice(['cadd', 'csub', 'cmul']), gen_scalar(r, k, d - 1), gen_scalar(r, k, d - 1))
    return (r.choice(['add', 'sub', 'mul', 'div']), gen_scalar(r, k, d - 1), gen_scalar(r, k, d - 1))


def shape(r): return r.choice([(1, 2), (2, 1), (2, 2), (2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (3, 2)])


def gen_matrix(r, k, s, d):
    if d <= 0: return operand(r, k, s)
    c = r.randrange(14)
    m = lambda q=s: gen_matrix(r, k, q, d - 1)
    v = lambda: gen_scalar(r, k, d - 1)
    if c == 0 and s[0] == s[1]: return ('eye', k, s[0])
    if c == 1: return ('full', v(), s[0], s[1])
    if c == 2 and s == (2, 2) and k not in INT:
        p = rnd_scalar(r, k), rnd_scalar(r, k), rnd_scalar(r, k)
        return ('inv2', ('p', k, s, [p[0], p[1], p[1], p[2]]))
    if c == 3 and (s == (2, 2) or 1 in s): return ('tr', m((s[1], s[0])))
    if c == 4: q = r.choice([2, 2, 3]); return ('mm', m((s[0], q)), m((q, s[1])))
    if c == 5 and s[0] == 1: return ('mm', m(), m((s[1], s[1])))
    if c == 5 and s[1] == 1: return ('mm', m((s[0], s[0])), m())
    if c == 6 and s[0] == s[1]: return ('mm', m((s[0], 1)), m((1, s[0])))
    if c == 7: return ('put', m(), v(), r.randrange(s[0]), r.randrange(s[1]))
    if c == 8: return ('each', m(), v())
    if c == 9: return ('copyfill', m(), v(), r.randint(0, s[0] * s[1]))
    if c == 10: return ('swap', m(), m())
    if c == 11: return (r.choice(['msadd', 'mssub', 'msmul']), m(), v())
    if c == 12: return (r.choice(['smadd', 'smmul']), v(), m())
    return (r.choice(['madd', 'msub']), m(), m())


def gen_item(r, avr):
    AVR_NOW[0] = avr
    kinds = list(FIX) * 2 + list(INT) + (['F'] if avr else ['F', 'D', 'D'])
    while True:
        k = r.choice(kinds); d = r.randint(1, 3); c = r.randrange(10)
        if c == 0: t = (r.choice(list(CMP)), gen_scalar(r, k, d), gen_scalar(r, k, d))
        elif c == 1: s = shape(r); a = gen_matrix(r, k, s, d - 1); t = ('equal', a, a if r.random() < 0.5 else gen_matrix(r, k, s, d - 1))
        elif c == 2 and k in FIX: t = (r.choice(['asint', 'rep'] + ([] if avr else ['asdouble'])), gen_scalar(r, k, d))
        elif c < 6: t = gen_scalar(r, k, d)
        else: t = gen_matrix(r, k, shape(r), d)
        try:
            value(t)
            if t[0] != 'p': return t
        except Out:
            pass


COMPILERS = {'g++17': ['g++', '-std=c++17', '-O1'], 'g++20': ['g++', '-std=c++20', '-O2'], 'clang++17': ['clang++', '-std=c++17', '-O1'], 'clang++20': ['clang++', '-std=c++20', '-O0'],
             'avr': ['avr-g++', '-std=c++17', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-Os', '-c']}


def command(prog, inc, src, exe):
    return COMPILERS[prog['compiler']] + ['-w', '-I', inc, src] + ['-o', exe]


def execute(prog, tmp, inc):
    """None or what is wrong"""
    text = source(prog)
    h = hashlib.sha1((prog['compiler'] + text).encode()).hexdigest()[:16]
    src, exe = os.path.join(tmp, h + '.cpp'), os.path.join(tmp, h + '.exe')
    open(src, 'w').write(text)
    try:
        r = subprocess.run(command(prog, inc, src, exe), capture_output=True, text=True, timeout=120)
        if r.returncode: return 'does not compile:\n' + r.stderr[:3000]
        if prog['compiler'] == 'avr': return None
        r = subprocess.run([exe], capture_output=True, text=True, timeout=20)
        return None if r.returncode == 0 else (r.stdout or 'exit code %d' % r.returncode)[:1000]
    except subprocess.TimeoutExpired:
        return 'takes too long'
    finally:
        for f in (src, exe):
            if os.path.exists(f): os.remove(f)


def shrink(prog, tmp, inc, seconds=150):
    """one expression, then its smallest failing part"""
    end = time.time() + seconds

    def failing(items):
        items = sorted(items, key=lambda t: len(repr(t)))
        for i in range(0, len(items), 16):
            if time.time() > end: return None
            with cf.ThreadPoolExecutor(8) as ex:
                for t, e in zip(items[i:i + 16], ex.map(lambda t: execute(dict(prog, items=[t]), tmp, inc), items[i:i + 16])):
                    if e: return t
        return None
    t = failing(prog['items'])
    if t is None: return prog
    while True:
        u = failing(list(subtrees(t)))
        if u is None: return dict(prog, items=[t])
        t = u


def describe(t):
    ps = []
    e = code(t, ps)
    return e + ' with ' + ', '.join('p%d = %s%s' % (i, p[1], [str(x) for x in p[3]]) for i, p in enumerate(ps))


def dump(t): return [dump(x) if isinstance(x, tuple) else {'q': [x.numerator, x.denominator]} if isinstance(x, Fraction) else {'l': [dump_v(v) for v in x]} if isinstance(x, list) else x for x in t]
def dump_v(v): return {'q': [v.numerator, v.denominator]} if isinstance(v, Fraction) else v


def load(t, top=True):
    if isinstance(t, dict):
        return Fraction(*t['q']) if 'q' in t else [load(v) for v in t['l']]
    if isinstance(t, list): return tuple(load(x) for x in t)
    return t


def run(runpy, pid, tier, tmp, t0):
    inc = runpy.INC
    if '--replay' in sys.argv:
        text = open(sys.argv[sys.argv.index('--replay') + 1]).read()
        p = json.loads(text.split('\nprogram: ', 1)[1].split('\n', 1)[0])
        e = execute(dict(compiler=p['compiler'], items=[load(t) for t in p['items']]), tmp, inc)
        print(e or 'passes')
        return 1 if e else 0
    for p in (['g++', '--version'], ['clang++', '--version'], ['avr-g++', '--version']):
        if subprocess.run(p, capture_output=True).returncode:
            print('no', p[0]); return 2
    seed = int(os.environ['VERIF_SEED'])
    r = random.Random(seed * 15485863 + 11)
    programs, per = (60, 60) if tier == 'quick' else (1500, 80)
    comps = list(COMPILERS)
    progs = [dict(compiler=comps[i % len(comps)], items=[gen_item(r, comps[i % len(comps)] == 'avr') for _ in range(per)]) for i in range(programs)]
    bad, done = None, 0
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {ex.submit(execute, p, tmp, inc): p for p in progs}
        for f in cf.as_completed(fut):
            done += 1
            if f.result() is not None:
                bad = fut[f]
                for g in fut: g.cancel()
                break
    path = None
    if bad is not None:
        small = shrink(bad, tmp, inc)
        err = execute(small, tmp, inc)
        if err is None:
            print('unstable failure'); return 2
        os.makedirs(os.path.join(runpy.ROOT, 'replays'), exist_ok=True)
        j = json.dumps(dict(compiler=small['compiler'], items=[dump(t) for t in small['items']]))
        path = os.path.join(runpy.ROOT, 'replays', pid + '-' + hashlib.sha1(j.encode()).hexdigest()[:16] + '.txt')
        with open(path, 'w') as f:
            f.write('property: %s\nprogram: %s\n%s\ncommand: %s\n%s\n\n%s' % (pid, j, describe(small['items'][0]), ' '.join(command(small, inc, 'x.cpp', 'x')), err, source(small)))
        print('failure:', small['compiler'], describe(small['items'][0]), err[:1200])
    items = [t for p in progs for t in p['items']]
    non = [t for t in items if sum(1 for _ in subtrees(t)) >= 1]
    ops = {}
    for t in items:
        for u in [t] + list(subtrees(t)): ops[u[0]] = ops.get(u[0], 0) + 1
    missing = sorted(OPS - {'p'} - set(ops))
    if missing and bad is None:
        print('operations never generated:', missing); return 2
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done * per, 'distinct_nontrivial': len({repr(t) for t in non}) if bad is None else 0,
                       'rule': 'generated constexpr functions of 1-3 levels over matrices, fixed-point numbers and the algorithm stand-ins, each evaluated by static_assert and (desktop) at run time against exact arithmetic. Non-trivial: an expression with at least two operations.',
                       'programs': done, 'compilers': {c: sum(p['compiler'] == c for p in progs) for c in comps}, 'operations': ops,
                       'samples': [describe(t) for t in r.sample(items, 6)]},
          'wall_s': time.time() - t0, 'violations': 1 if bad else 0}
    with open(os.environ.get('PBT_EVIDENCE') or os.path.join(runpy.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d programs of %d expressions, %.1f s' % (pid, tier, seed, done, per, time.time() - t0))
    if bad is not None:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
