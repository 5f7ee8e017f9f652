#!/usr/bin/env python3
"""tools/mutants.py OUT SEED COUNT [FILE...]   generated mutations of /repo/include: which ones do the quick checks (without
libFuzzer) not notice?  Each mutant lives in a scratch copy; survivors have to be looked at by hand (many are equivalent)."""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_BASE', '/repo')
CHECKS = {
    'core/range.hpp': 'R01 R02 N01', 'core/text.hpp': 'T01', 'core/shims.hpp': 'T01', 'core/vector-io.hpp': 'P01', 'core/core-io.hpp': 'P01 X01', 'core/traits.hpp': 'T01 D04 O02 R01 X01',
    'dsp/biquad.hpp': 'B01 B02 B03 B04 B05 A05', 'dsp/biquad-cascade.hpp': 'C01 C02 B05 Q02', 'dsp/biquad-design.hpp': 'D01 D02 D03 D04 Q02', 'dsp/filter-design.hpp': 'D05 D01 D04', 'dsp/filter.hpp': 'D04 D05 B02',
    'dsp/biquad-io.hpp': 'P01', 'dsp/biquad-cascade-io.hpp': 'P01', 'dsp/chebyshev-design-io.hpp': 'P01', 'dsp/onepole-io.hpp': 'P01', 'dsp/kalman-io.hpp': 'X01',
    'dsp/chebyshev-design.hpp': 'H01 H02 H03 Q02', 'dsp/kalman.hpp': 'K01 K02 K04 K03 K05', 'dsp/onepole.hpp': 'O01 O02 A05', 'dsp/onepole-design.hpp': 'O02', 'num/constants.hpp': 'D05 B02 D01',
    'num/fixed-point.hpp': 'F01 F02 F03 A01 V01 Q01', 'num/fixed-point-io.hpp': 'P01', 'num/matrix.hpp': 'M01 M02 M03 M04 K01 A02 V01 Q01', 'num/matrix-io.hpp': 'P01',
    'std/algorithm.hpp': 'S01 A02', 'std/complex.hpp': 'A04 A06', 'std/limits.hpp': 'A03', 'std/tuple.hpp': 'A03 X01', 'std/type_traits.hpp': 'A03 X01', 'std/utility.hpp': 'S01 A03 A02', 'std/cstdint.hpp': 'A03 X01',
    'mcu/register.hpp': 'G01 G02 G05 G04 G03 Q01', 'mcu/atmega328.hpp': 'G01 G03 G04 G06 G07 G05 E01'}
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' \* ', ' + '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' > '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r'\+\+', '--'), (r' \| ', ' & '), (r' & ', ' | '), (r' \|= ', ' = '), (r' &= ', ' |= '), (r'~', ''), (r' << ', ' >> '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b([3-9]|\d\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'\b(\d+\.\d+)\b', lambda m: m.group(1) + '1'),
       (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'), (r'\breal\b', 'imag'), (r'\bimag\b', 'real'), (r'\blo\b', 'hi'), (r'\bhi\b', 'lo'), (r'\bfirst\b', 'second'), (r'\bb([012])\b', lambda m: 'b' + str((int(m.group(1)) + 1) % 3)),
       (r'\ba([12])\b', lambda m: 'a' + str(3 - int(m.group(1)))), (r'\bv([12])\b', lambda m: 'v' + str(3 - int(m.group(1)))), (r'\brow\b', 'col'), (r'\bcol\b', 'row'), (r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'\ba\b', 'b'), (r'\bb\b', 'a'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'^(\s+)([\w:.()\[\] *&+]+ = .*;|[\w.]+\(.*\);|[\w.:]+ [-+*/|&]= .*;)\s*$', r'\1;'), (r'\breturn -', 'return '), (r'_t\b', '_t &'), (r'(\w+)A(\d?)\b', r'\1B\2'), (r'(\w+)B(\d?)\b', r'\1A\2'), (r'\(-', '(')]


def candidates(f):
    out, text = [], open(os.path.join(REPO, 'include', f)).read()
    pos, block = 0, False
    for line in text.splitlines(True):
        s = line.strip()
        code = line.split('//')[0]
        if s and not s.startswith(('//', '#', '*', '/*', 'static_assert', 'template', 'using namespace', 'namespace')):
            for k, (r, w) in enumerate(OPS):
                for m in re.finditer(r, code):
                    n = m.expand(w) if isinstance(w, str) and '\\' in w else w(m) if callable(w) else w
                    out.append((f, pos + m.start(), pos + m.end(), n, k))
        pos += len(line)
    return out


def run(m):
    f, a, b, n, k = m
    text = open(os.path.join(REPO, 'include', f)).read()
    line = text.count('\n', 0, a) + 1
    new = text[:a] + n + text[b:]
    head = '%s:%d: %s  ->  %s' % (f, line, text.splitlines()[line - 1].strip(), new.splitlines()[line - 1].strip())
    d = tempfile.mkdtemp(prefix='mutant-')
    try:
        for x in ('include', 'example', 'script', 'time'): shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
        open(os.path.join(d, 'include', f), 'w').write(new)
        for c in CHECKS[f].split():
            e = dict(os.environ, PBT_REPO=d, PBT_EVIDENCE=d + '/ev.json', PBT_NOFUZZ='1', PBT_REPLAYS=d, VERIF_SEED='1', VERIF_TIER='quick')
            try: r = subprocess.run(['python3', os.path.join(ROOT, 'run.py'), c], env=e, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: return head, 'timeout ' + c
            if r.returncode == 1: return head, 'killed ' + c + (' (compile)' if 'compile' in r.stdout.split('VIOLATION')[-1] else '')
            if r.returncode: return head, 'ERROR %s %s' % (c, (r.stdout + r.stderr)[-300:])
        return head, 'SURVIVED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(CHECKS)
    rnd = random.Random(seed)
    todo = []
    for f in files:
        c = candidates(f)
        rnd.shuffle(c)
        seen, pick = set(), []
        for m in c:                                   # at most three per line
            ln = m[1]
            key = (open(os.path.join(REPO, 'include', f)).read().count('\n', 0, m[1]))
            if sum(1 for q in seen if q[0] == key) >= 3: continue
            seen.add((key, m[4], m[1])); pick.append(m)
        todo += pick[:count]
    rnd.shuffle(todo)
    print(len(todo), 'mutants')
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 5))) as ex, open(out, 'a') as o:
        for h, v in ex.map(run, todo):
            o.write('%-16s %s\n' % (v, h)); o.flush()


if __name__ == '__main__':
    main()
