"""Q01: operands that do not fit together are rejected by the compiler, those that do are accepted.

Cases are generated expressions and statements over matrices, estimators, fixed-point formats, filter sections and
cascades (desktop and AVR) and over registers and device settings (AVR).  The oracle is a model of shapes, element
types, formats and registers in this program: it says whether a case must be accepted (and with which type of
result) or must be rejected; a case it has no opinion about is not used.  Many cases share a compilation, one line
each; a line the model and the diagnostics disagree about is compiled alone before it counts."""
import concurrent.futures as cf, hashlib, json, os, random, re, subprocess, sys, time

COMPILERS = {'g++17': ['g++', '-std=c++17', '-fsyntax-only', '-fmax-errors=0'], 'clang++17': ['clang++', '-std=c++17', '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0'],
             'g++20': ['g++', '-std=c++20', '-fsyntax-only', '-fmax-errors=0'],
             'avr': ['avr-g++', '-std=c++17', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-O0', '-c', '-o', '/dev/null', '-fmax-errors=0']}

HEAD = '''#include "dsp/kalman.hpp"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
using A7 = num::fixed_point<std20::int16_t,8>; using A8 = num::fixed_point<std20::int16_t,7>; using X15 = num::fixed_point<std20::int32_t,16>; using X20 = num::fixed_point<std20::int32_t,11>; using X3 = num::fixed_point<std20::int8_t,4>;
template< typename T, int N, int M > using m = num::matrix<T,N,M>;
template< typename F > F mk() { return F(); }
template< typename A, typename B > struct is_same_ { static constexpr bool value = false; };
template< typename A > struct is_same_<A,A> { static constexpr bool value = true; };
template< typename T, typename V > void check_type( V const & ) { static_assert( is_same_<T,V>::value, "type of the result" ); }
'''
FILTERS = '''#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
template< typename T > using bq = dsp::BiQuadT<T>; template< typename T > using op = dsp::onepole::OnePoleT<T>; template< typename T, int N > using cas = dsp::BiQuadCascadeT<T,N>;
'''
DEVICE = '''#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
'''


# ------------------------------------------------------------------ shapes: ( element, rows, columns ), ( element, ) for a scalar
class Bad(Exception): pass              # must be rejected
class Open(Exception): pass             # no opinion


def typ(s): return s[0] if len(s) == 1 else 'm<%s,%d,%d>' % s


def join(a, b):
    """element type of a combination"""
    if a[0] == b[0]: return a[0]
    if len(a) == 1 or len(b) == 1: raise Open
    if (1, 1) in (a[1:], b[1:]) and (a[0] in FORMATS or b[0] in FORMATS): raise Open     # a fixed-point number can be made from what multiplies to a number
    raise Bad


def shape(t):
    op = t[0]
    if op == 'leaf': return t[1]
    a = shape(t[1])
    if op == 'tr':
        if len(a) == 1: raise Open
        if a[1:] == (1, 1): raise Open
        if 1 in a[1:] or a[1:] == (2, 2): return (a[0], a[2], a[1])
        raise Open
    if op == 'inv':
        if a[0] == 'int': raise Open
        if len(a) == 1: return a
        if a[1:] == (2, 2): return a
        if a[1] != a[2]: raise Bad
        raise Open
    b = shape(t[2])
    e = join(a, b)
    if op in '+-' and len(a) == 3 and len(b) == 3:
        if a[1:] == b[1:]: return a
        if (1, 1) in (a[1:], b[1:]):
            if op == '-': raise Open
            return b if a[1:] == (1, 1) else a
        raise Bad
    if op in '+-':
        if len(a) == 1 and len(b) == 1: return a
        m = a if len(a) == 3 else b
        if m[1:] == (1, 1): return (e,)
        if op == '-' and len(a) == 1: raise Open
        return m
    if op == '*':
        if len(a) == 1 and len(b) == 1: return a
        if len(a) == 1 or len(b) == 1:
            m = a if len(a) == 3 else b
            return (e,) if m[1:] == (1, 1) else m
        if a[1:] == (1, 1): return b
        if b[1:] == (1, 1): return a
        if a[2] != b[1]: raise Bad
        if a[2] == 1 and a[1] != b[2]: raise Open
        if a[1] == 1 and b[2] == 1: return (e,)
        return (e, a[1], b[2])
    raise ValueError(op)


def text(t):
    op = t[0]
    if op == 'leaf': return '%s( 1 )' % typ(t[1])
    if op == 'tr': return 'num::transposed( %s )' % text(t[1])
    if op == 'inv': return 'num::inverted( %s )' % text(t[1])
    return '( %s %s %s )' % (text(t[1]), op, text(t[2]))


ELEMENTS = ['int', 'double', 'float', 'X15', 'A7']
HOST_ELEMENTS = ELEMENTS


def dims(r): return r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4), (2, 4), (4, 1), (1, 4), (3, 4)])


def tree(r, s, d):
    """a tree that has shape s (as far as the generator tries)"""
    if d == 0: return ('leaf', s)
    e = s[0]
    c = r.randrange(8)
    if len(s) == 1:
        n = r.choice([2, 3, 4])
        if c < 4: return ('*', tree(r, (e, 1, n), d - 1), tree(r, (e, n, 1), d - 1))
        if c == 4: return (r.choice('+-*'), tree(r, (e, 1, 1), d - 1), ('leaf', s))
        if c == 5: return (r.choice('+-*'), ('leaf', s), tree(r, (e, 1, 1), d - 1))
        return ('leaf', s)
    n, m = s[1:]
    if c == 0 and (1 in (n, m) or n == m == 2) and (n, m) != (1, 1): return ('tr', tree(r, (e, m, n), d - 1))
    if c == 1 and n == m == 2 and e != 'int': return ('inv', tree(r, s, d - 1))
    if c == 2: return ('*', tree(r, s, d - 1), ('leaf', (e,))) if r.random() < 0.5 else ('*', ('leaf', (e,)), tree(r, s, d - 1))
    if c == 3: return (r.choice('+*'), tree(r, (e, 1, 1), d - 1), tree(r, s, d - 1)) if r.random() < 0.5 else (r.choice('+*'), tree(r, s, d - 1), tree(r, (e, 1, 1), d - 1))
    if c in (4, 5):
        k = r.choice([2, 3, 4]) if not (n == m and r.random() < 0.3) else 1
        return ('*', tree(r, (e, n, k), d - 1), tree(r, (e, k, m), d - 1))
    return (r.choice('+-'), tree(r, s, d - 1), tree(r, s, d - 1))


def leaves(t, at=()):
    if t[0] == 'leaf': yield at
    else:
        for i, u in enumerate(t[1:]): yield from leaves(u, at + (i + 1,))


def put(t, at, v):
    if not at: return v
    return t[:at[0]] + (put(t[at[0]], at[1:], v),) + t[at[0] + 1:]


def get(t, at):
    for i in at: t = t[i]
    return t


def fate(t):
    try: return 'ok', shape(t)
    except Bad: return 'bad', None
    except Open: return 'open', None


def matrix_case(r):
    """(must be accepted, statement, class)"""
    while True:
        e = r.choice(ELEMENTS)
        t = tree(r, (e,) if r.random() < 0.1 else (e,) + dims(r), r.randint(1, 3))
        kind = 'expression'
        if r.random() < 0.6:
            at = r.choice(list(leaves(t)))
            l = get(t, at)[1]
            c = r.randrange(4)
            if c == 0 and len(l) == 3: n = ('leaf', (r.choice([x for x in ELEMENTS if x != e]),) + l[1:])
            elif c == 1 and len(l) == 3: n = ('leaf', (e, l[2], l[1]))
            else: n = ('leaf', (e,) + dims(r))
            t = put(t, at, n)
        f, s = fate(t)
        if f == 'open': continue
        x = text(t)
        if f == 'bad': return False, '(void) %s;' % x, 'operands of different shape or element type'
        c = r.randrange(4)
        if c < 2: return True, 'check_type<%s>( %s );' % (typ(s), x), 'result of the right type'
        u = s if r.random() < 0.4 else (s[0],) + dims(r) if r.random() < 0.7 else (r.choice(ELEMENTS),) + s[1:]
        if len(s) == 1 or len(u) == 1:
            if s == u: return True, '%s v = %s; (void) v;' % (typ(u), x), 'initialised from the same shape'
            if len(s) == 3 and s[1:] != (1, 1): return False, '%s v = %s;' % (typ(u), x), 'initialised from another shape'
            continue
        st = '%s v = %s; (void) v;' if c == 2 else '%s v( 1 ); v = %s;'
        return s == u, st % (typ(u), x), ('initialised or assigned from the same shape' if s == u else 'initialised or assigned from another shape')


def const_case(r):
    e = r.choice(['int', 'double', 'float']); n, m = dims(r); const = r.random() < 0.5
    i, j = r.randrange(n), r.randrange(m)
    w = r.choice(['v( %d, %d ) = 1;' % (i, j), 'v.at( %d, %d ) = 1;' % (i, j), 'v( %d ) = 1;' % j, 'v.at( %d ) += 1;' % (i * m + j), 'v[%d] = 1;' % j, '*v.begin() = 1;', 'for ( auto & x : v ) x = 1;', 'v = %s( 2 );' % typ((e, n, m)), 'std20::fill( v.begin(), v.end(), 1 );'])
    return not const, '%s%s v( 1 ); %s' % (typ((e, n, m)), ' const' if const else '', w), 'writing a constant matrix' if const else 'writing a matrix'


def kalman_case(r):
    e = r.choice(['double', 'float', 'X15']); M, U = r.choice([1, 2]), r.choice([1, 2, 3])
    a = [(e,), (e, 2, 2), (e, 2, U), (e, M, 2), (e, 2, 2), (e, M, M), (e, 2, 2), (e, 2, 1), (e, U, 1), (e, M, 1)]
    ok, k = True, 'estimator operands'
    if r.random() < 0.6:
        i = r.randrange(1, len(a)); n = (e,) + dims(r) if r.random() < 0.8 else (r.choice([x for x in ['double', 'float', 'X15'] if x != e]),) + a[i][1:]
        if r.random() < 0.3 and len(set(a[i][1:])) == 2: n = (e, a[i][2], a[i][1])
        ok = n == a[i]; a[i] = n
        if not ok: k = 'estimator operand of another shape or element type'
    x = ['%s( 1 )' % typ(s) for s in a]
    st = 'num::kalman<%s,2,%d,%d> k( %s ); k.update( %s );' % (e, M, U, ', '.join(x[:8]), ', '.join(x[8:]))
    if r.random() < 0.3:
        w, s = r.choice([('system_state', (e, 2, 1)), ('kalman_gain', (e, 2, M)), ('estimation_error_covariance', (e, 2, 2))])
        n = s if r.random() < 0.5 else (e,) + dims(r)
        if n != s: ok, k = False, 'estimator result of another shape'
        st += ' %s v = k.%s(); (void) v;' % (typ(n), w)
    return ok, st, k


FORMATS = ['A7', 'A8', 'X15', 'X20', 'X3']


def fixed_case(r):
    a = r.choice(FORMATS); b = a if r.random() < 0.5 else r.choice([x for x in FORMATS if x != a])
    c = r.randrange(6)
    if c < 2: return a == b, '(void)( %s( 1 ) %s %s( 1 ) );' % (a, r.choice(['+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=']), b), 'fixed point: same format' if a == b else 'fixed point: two formats'
    if c == 2: return a == b, '%s v( 1 ); v %s= %s( 1 );' % (a, r.choice(['+', '-', '*', '/', '']), b), 'fixed point: same format' if a == b else 'fixed point: two formats'
    if c == 3: return a == b, '%s v = %s( 1 ); (void) v;' % (a, b), 'fixed point: same format' if a == b else 'fixed point: two formats'
    if c == 4:
        n, ok = r.choice([('int', 0), ('double', 0), ('float', 0), ('long', 0), ('short', 0), (a, 1)])
        return bool(ok), '%s v = %s( 1 ); (void) v;' % (n, a), 'fixed point: silent conversion to a number' if not ok else 'fixed point: same format'
    n, w, ok = r.choice([('std20::int16_t', 7, 1), ('std20::int32_t', 20, 1), ('std20::int8_t', 2, 1), ('unsigned short', 7, 0), ('unsigned', 20, 0), ('unsigned char', 3, 0), ('float', 4, 0), ('double', 9, 0), ('bool', 0, 0)])
    return bool(ok), 'num::fixed_point<%s,%d> v( 1 ); v += v;' % (n, w), 'fixed point: signed integral representation' if ok else 'fixed point: unsigned or floating representation'


def filter_case(r):
    T = r.choice(['double', 'float', 'X15']); V = T if r.random() < 0.6 else r.choice([x for x in ['double', 'float', 'X15'] if x != T])
    c = r.randrange(6)
    if c == 0:
        n, k = r.randint(1, 4), r.randint(1, 6)
        ok = k <= n and T == V
        return ok, 'cas<%s,%d> c( %s ); (void) c;' % (T, n, ', '.join(['mk<bq<%s>>()' % T] * (k - 1) + ['mk<bq<%s>>()' % V])), 'cascade: fitting sections' if ok else 'cascade: too many sections' if k > n else 'cascade: sections of another type'
    if c == 1:
        n, k = r.randint(1, 4), r.randint(1, 4); n = k if r.random() < 0.5 else n
        ok = n == k and T == V
        return ok, 'cas<%s,%d> c; cas<%s,%d> d; c = d;' % (T, n, V, k), 'cascade: same type' if ok else 'cascade: another capacity or type'
    if c == 2:
        w, writes = r.choice([('step( c, 1 );', 1), ('step_df2( c, 1 );', 1), ('step_df2_transposed( c, 1 );', 1), ('reset( c );', 1), ('c.append( mk<bq<%s>>() );' % T, 1), ('c.clear();', 1), ('c.remove( 0 );', 1), ('c.insert( 0, mk<bq<%s>>() );' % T, 1), ('c.replace( 0, mk<bq<%s>>() );' % T, 1), ('c.begin()->reset();', 1),
                              ('(void) c.size();', 0), ('(void) c.coeff_a( 0 );', 0), ('(void) c.coeff_b( 0 );', 0), ('(void) c.state( 0 );', 0), ('for ( auto & b : c ) (void) b.coeff_a();', 0)])
        const = r.random() < 0.5
        return not ( const and writes ), 'cas<%s,3>%s c( %s ); %s' % (T, ' const' if const else '', 'mk<bq<%s>>()' % T, w), 'filtering with or changing a constant filter' if const and writes else 'filter use'
    if c == 3:
        w, writes = r.choice([('f.step( 1 );', 1), ('f.reset();', 1), ('f.swap( g );', 1), ('(void) f.coeff_a();', 0), ('(void) f.coeff_b();', 0), ('(void) f.state();', 0), ('f = g;', 1)])
        const = r.random() < 0.5; k = r.choice(['bq', 'op'])
        if k == 'op' and 'swap' in w: w = 'f.reset();'
        return not ( const and writes ), '%s<%s>%s f; %s<%s> g; %s' % (k, T, ' const' if const else '', k, T, w) if not const else '%s<%s> g; %s<%s> const f( g ); %s' % (k, T, k, T, w), 'filtering with or changing a constant filter' if const and writes else 'filter use'
    if c == 4:
        k, l = r.choice(['bq', 'op']), r.choice(['bq', 'op', 'same']); l = k if l == 'same' else l
        ok = k == l and T == V
        return ok, '%s<%s> f; %s<%s> g; f = g;' % (k, T, l, V), 'section: same type' if ok else 'section: another type'
    return T == V, 'cas<%s,2> c; c.append( mk<bq<%s>>() );' % (T, V), 'cascade: fitting sections' if T == V else 'cascade: sections of another type'


# ------------------------------------------------------------------ registers and settings of the device
ALLOWED = {'r_t': {'read'}, 'w_t': {'set', 'clear', 'write'}, 'rw_t': {'read', 'set', 'clear', 'toggle', 'write'}, 'rc_w1_t': {'read', 'clear'}, 'rc_w0_t': {'read', 'clear'}, 'rc_r_t': {'read'}, 'rs_t': {'read', 'set'}, 'rt_w': {'read', 'trigger'}}
USES = {'read': '(void) F::read();', 'set': 'F::set();', 'clear': 'F::clear();', 'toggle': 'F::toggle();', 'trigger': 'F::trigger();', 'write': 'F::write( 1 );'}


def field(r, pol=None, addr=None, wide=None):
    wide = r.random() < 0.3 if wide is None else wide
    top = 15 if wide else 7
    lo = r.randint(0, top); hi = lo if r.random() < 0.4 else r.randint(lo, top)
    return 16 if wide else 8, pol or r.choice(['rw_t', 'w_t']), addr or r.choice(['0x3e', '0x4a', '0x80']), hi, lo


def field_text(f): return 'bitfield%d_t< %s, %s, %d, %d >' % f


def register_case(r):
    c = r.randrange(4)
    if c == 0:
        p = r.choice(list(ALLOWED)); u = r.choice(list(USES)); b = r.randint(0, 7)
        if u == 'write' and p in ('rs_t', 'rt_w'): pass
        ok = u in ALLOWED[p]
        return ok, 'using F = bitfield8_t< %s, 0x4a, %d >; %s' % (p, b, USES[u]), 'register bit: permitted access' if ok else 'register bit: access that is not permitted'
    if c == 1:
        p = r.choice(list(ALLOWED)); u = r.choice(['read', 'write', 'lazy']); f = field(r, p)
        while f[3] == f[4]: f = field(r, p)
        if u == 'read':
            if p not in ('r_t', 'rw_t', 'w_t'): return register_case(r)
            ok = p != 'w_t'
        else: ok = p in ('w_t', 'rw_t')
        return ok, 'using F = %s; %s' % (field_text(f), {'read': '(void) F::read();', 'write': 'F::write( 1 );', 'lazy': 'F::write_lazy( 1 );'}[u]), 'register field: permitted access' if ok else 'register field: access that is not permitted'
    if c == 2:
        w = r.choice([8, 16]); hi, lo = r.randint(0, w + 3), r.randint(0, w + 3)
        if r.random() < 0.6: lo = r.randint(0, w - 1); hi = r.choice([lo - 1, lo, lo + 1, w - 1, w, w + 1]) if lo else r.choice([0, 1, w - 1, w, w + 1])
        ok = lo <= hi < w
        return ok, 'bitfield%d_t< rw_t, 0x4a, %d, %d > x; (void) x;' % (w, hi, lo), 'register field: bits of the register' if ok else 'register field: no such bits'
    k = r.randint(2, 4)
    f = field(r); fs = [f] + [field(r, f[1], f[2], f[0] == 16) for _ in range(k - 1)]
    ok = True
    if r.random() < 0.6:
        i = r.randrange(k); g = list(fs[i]); d = r.randrange(3)
        if d == 0: g[2] = r.choice([a for a in ['0x3e', '0x4a', '0x80', '0x4b'] if a != g[2]])
        elif d == 1: g[1] = 'w_t' if g[1] == 'rw_t' else 'rw_t'
        else: g = list(field(r, g[1], g[2], g[0] == 8))
        fs[i] = tuple(g); ok = False
    x = ['%s::write_lazy( 1 )' % field_text(f) for f in fs]
    e = ', '.join(x)
    if k > 2 and r.random() < 0.4: j = r.randint(1, k - 2); e = ', '.join(x[:j] + ['( ' + ', '.join(x[j:]) + ' )'])
    return ok, '%s;' % e, 'combined writes to one register' if ok else 'combined writes to different registers, sizes or kinds of register'


def settings(root):
    """deferred and typed settings: (id, namespace, type, value expression, address)"""
    t = open(os.path.join(root, 'avr', 'mcu_options.hpp')).read()
    o = []
    for l in t.split('\n'):
        m = re.match(r'([ONL])\( (.*) \)\s*$', l)
        if not m: continue
        p = m.group(2)
        if m.group(1) in 'ON':
            i, ns, ty, ad, hi, lo = [x.strip() for x in p.split(',')]
            o.append(dict(id=i, ns=ns, type='%s::%s' % (ns, ty), lazy=m.group(1) == 'O', text='%s::set( %s::%s( 1 ) )' % (ns, ns, ty), addr=ad))
        else:
            depth, parts, cur = 0, [], ''
            for ch in p:
                if ch in '(<': depth += 1
                if ch in ')>': depth -= 1
                if ch == ',' and depth == 0: parts.append(cur.strip()); cur = ''
                else: cur += ch
            parts.append(cur.strip())
            o.append(dict(id=parts[0], ns=None, type=None, lazy=True, text=re.sub(r'\bv\b', '1', parts[1]), addr=parts[3]))
    return o


def setting_case(r, opts):
    c = r.randrange(3)
    if c == 0:
        lazy = [o for o in opts if o['lazy']]
        a = r.choice(lazy)
        b = r.choice([o for o in lazy if o['addr'] == a['addr']]) if r.random() < 0.5 else r.choice(lazy)
        l = [a, b]
        if r.random() < 0.4: l.insert(r.randrange(3), r.choice([o for o in lazy if o['addr'] == a['addr']]))
        ok = len({o['addr'] for o in l}) == 1
        return ok, ', '.join(o['text'] for o in l) + ';', 'settings of one register combined' if ok else 'settings of different registers combined'
    typed = [o for o in opts if o['type']]
    a = r.choice(typed)
    if c == 1: ok = r.random() < 0.4; return ok, (a['text'] if ok else '%s::set( %s )' % (a['ns'], r.choice(['1', '0', 'uint8_t( 1 )', 'true', '1u']))) + ';', 'setting by its own type' if ok else 'setting by a plain number'
    near = [o for o in typed if o['ns'] != a['ns'] and o['ns'].split('::')[0] != a['ns'].split('::')[0]]
    b = a if r.random() < 0.4 else r.choice(near)
    return a is b, '%s::set( %s( 1 ) );' % (a['ns'], b['type']), 'setting by its own type' if a is b else 'setting by the type of another device part'


# ------------------------------------------------------------------ compilation
def source(cases, device):
    h = (DEVICE if device else '') + HEAD + ('' if device else FILTERS)
    first = h.count('\n') + 1
    return h + ''.join('void f%d() { %s }\n' % (i, c[1]) for i, c in enumerate(cases)), first


def compile_(cases, comp, tmp, inc):
    """(exit code, lines of cases that are in the diagnostics, stderr)"""
    text, first = source(cases, comp == 'avr')
    p = os.path.join(tmp, hashlib.sha1((comp + text).encode()).hexdigest()[:16] + '.cpp')
    open(p, 'w').write(text)
    try:
        r = subprocess.run(COMPILERS[comp] + ['-w', '-I', inc, p], capture_output=True, text=True, timeout=300)
    finally:
        os.remove(p)
    named = {int(x) - first for x in re.findall(re.escape(p) + r':(\d+):', r.stderr)}
    return r.returncode, {i for i in named if 0 <= i < len(cases)}, r.stderr


def judge(case, comp, tmp, inc):
    """None or what is wrong, compiled alone"""
    rc, _, err = compile_([case], comp, tmp, inc)
    if case[0] and rc: return 'should be accepted, but:\n' + '\n'.join(l for l in err.split('\n') if 'error' in l)[:1500]
    if not case[0] and not rc: return 'should be rejected, but is accepted'
    return None


def batch(cases, comp, tmp, inc):
    rc, named, err = compile_(cases, comp, tmp, inc)
    suspects = [i for i, c in enumerate(cases) if c[0] == (i in named)]
    if rc and not named: suspects = [i for i, c in enumerate(cases) if c[0]][:3]
    out = []
    for i in suspects[:12]:
        w = judge(cases[i], comp, tmp, inc)
        if w: out.append((cases[i], w)); break
    return out


def shrink(case, comp, tmp, inc, make, r):
    """the shortest other case of the same class that fails, out of a number of generated ones"""
    best, end = case, time.time() + 60
    pool = sorted({c for c in (make(r) for _ in range(3000)) if c[2] == case[2] and c[0] == case[0] and len(c[1]) < len(case[1])}, key=lambda c: (len(c[1]), c[1]))
    for i in range(0, min(len(pool), 240), 8):
        if time.time() > end: break
        with cf.ThreadPoolExecutor(8) as ex:
            for c, w in zip(pool[i:i + 8], ex.map(lambda c: judge(c, comp, tmp, inc), pool[i:i + 8])):
                if w: return c
    return best


def run(runpy, pid, tier, tmp, t0):
    inc = runpy.INC
    if '--replay' in sys.argv:
        text_ = open(sys.argv[sys.argv.index('--replay') + 1]).read()
        p = json.loads(text_.split('\ncase: ', 1)[1].split('\n', 1)[0])
        w = judge(tuple(p['case']), p['compiler'], tmp, inc)
        print(w or 'passes')
        return 1 if w else 0
    seed = int(os.environ['VERIF_SEED'])
    r = random.Random(seed * 32452843 + 5)
    opts = settings(runpy.ROOT)
    host = lambda r: r.choice([matrix_case, matrix_case, matrix_case, const_case, kalman_case, fixed_case, filter_case])(r)
    avr = lambda r: register_case(r) if (c := r.random()) < 0.35 else setting_case(r, opts) if c < 0.75 else r.choice([matrix_case, const_case, kalman_case, fixed_case])(r)
    per, batches = (50, 72) if tier == 'quick' else (50, 2000)
    comps = list(COMPILERS)
    todo = []
    for i in range(batches):
        comp = comps[i % len(comps)]
        make = avr if comp == 'avr' else host
        todo.append((comp, [make(r) for _ in range(per)]))
    bad, done = None, 0
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {ex.submit(batch, cs, comp, tmp, inc): (comp, cs) for comp, cs in todo}
        for f in cf.as_completed(fut):
            done += 1
            if f.result():
                bad = (fut[f][0],) + f.result()[0]
                for g in fut: g.cancel()
                break
    path = None
    if bad:
        comp, case, why = bad
        small = shrink(case, comp, tmp, inc, avr if comp == 'avr' else host, r)
        why = judge(small, comp, tmp, inc)
        if why is None: print('unstable failure'); return 2
        os.makedirs(os.path.join(runpy.ROOT, 'replays'), exist_ok=True)
        j = json.dumps(dict(compiler=comp, case=list(small)))
        path = os.path.join(runpy.ROOT, 'replays', pid + '-' + hashlib.sha1(j.encode()).hexdigest()[:16] + '.txt')
        with open(path, 'w') as f:
            f.write('property: %s\ncase: %s\n%s: %s\n%s\n\n%s' % (pid, j, small[2], small[1], why, source([small], comp == 'avr')[0]))
        print('failure:', comp, small[2] + ':', small[1], why)
    cases = [c for _, cs in todo for c in cs]
    classes = {}
    for c in cases: classes[c[2]] = classes.get(c[2], 0) + 1
    need = ['operands of different shape or element type', 'result of the right type', 'initialised or assigned from another shape', 'writing a constant matrix', 'estimator operands', 'estimator operand of another shape or element type', 'estimator result of another shape',
            'fixed point: two formats', 'fixed point: same format', 'fixed point: silent conversion to a number', 'fixed point: unsigned or floating representation', 'cascade: too many sections', 'cascade: sections of another type', 'cascade: another capacity or type', 'filtering with or changing a constant filter', 'section: another type',
            'register bit: access that is not permitted', 'register field: access that is not permitted', 'register field: no such bits', 'combined writes to different registers, sizes or kinds of register', 'combined writes to one register', 'settings of different registers combined', 'settings of one register combined', 'setting by a plain number', 'setting by the type of another device part', 'setting by its own type']
    missing = [k for k in need if k not in classes]
    if missing and not bad:
        print('classes never generated:', missing); return 2
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done * per, 'distinct_nontrivial': len({c[:2] for c in cases if not c[0]}) if not bad else 0,
                       'rule': 'generated expressions and statements, compiled by g++ and clang++ (C++17, C++20) and avr-g++; a model of shapes, element types, formats, constness and registers says whether each must be accepted or rejected. Non-trivial: a case that must be rejected (the others show that the rejected ones differ from accepted ones in the mismatch only).',
                       'must be rejected': sum(not c[0] for c in cases), 'must be accepted': sum(c[0] for c in cases), 'classes': classes,
                       'samples': ['%s: %s' % ('accept' if c[0] else 'reject', c[1]) for c in r.sample(cases, 8)]},
          'wall_s': time.time() - t0, 'violations': 1 if bad else 0}
    with open(os.environ.get('PBT_EVIDENCE') or os.path.join(runpy.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d to be rejected, %.1f s' % (pid, tier, seed, done * per, sum(not c[0] for c in cases), time.time() - t0))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
