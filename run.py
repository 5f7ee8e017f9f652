#!/usr/bin/env python3
"""Build and run one check:  python3 run.py <ID> [--replay FILE]

Everything is built from /repo's current working tree into a scratch directory
that is removed afterwards; nothing under /repo is written.
"""
import glob, os, re, shutil, subprocess, sys, tempfile, time, json, importlib.util

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBT_REPO', '/repo')
INC = os.path.join(REPO, 'include')

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all']
CXX = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-ffp-contract=off']


def mined(dirs):
    """numeric literals in the sources under test, for the generators"""
    nums = set()
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, '**', '*.hpp'), recursive=True)):
            text = open(f, errors='replace').read()
            text = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)", text):
                t = m.group(1)
                try:
                    v = float(int(t, 0)) if re.match(r'0[xXbB]', t) else float(t)
                except ValueError:
                    continue
                if abs(v) < 1e12:
                    nums.add(v)
    return sorted(nums)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    os.environ.setdefault('VERIF_SEED', '1')
    os.environ.setdefault('PBT_ROOT', ROOT)
    os.environ.setdefault('PBT_KNOWN', os.path.join(ROOT, 'known-findings.txt'))
    os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0'
    os.environ['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % pid)
    os.environ['PBT_TMP'] = tmp
    rc = 2
    try:
        rc = run(pid, tier, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def compile_violation(pid, tier, what, cmd, err, t0):
    """The documented interface can no longer be compiled: the property does not hold for any input."""
    probe = subprocess.run([cmd[0], '-std=c++17', '-x', 'c++', '-fsyntax-only', '-'], input='#include <stdint.h>\nint main(){}\n', text=True, capture_output=True)
    if probe.returncode != 0:
        print('the compiler does not work:', probe.stderr)
        return 2
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', pid + '-compile.txt')
    with open(path, 'w') as f:
        f.write('property: %s\n%s does not compile against /repo/include\ncommand: %s\n\n%s\n' % (pid, what, ' '.join(cmd), err[:20000]))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ['VERIF_SEED']), 'level': 'exploration',
                   'coverage': {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': 'the harness did not compile', 'samples': [err[:2000]]},
                   'wall_s': time.time() - t0, 'violations': 1}, f, indent=1)
    print(err[:3000])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def write_mined(tmp, dirs):
    with open(os.path.join(tmp, 'mined.inc'), 'w') as f:
        f.write('namespace pbt { inline std::vector<double> const & mined_numbers() { static std::vector<double> v = {%s}; return v; } }\n'
                % ', '.join(repr(x) for x in mined(dirs)))


def run(pid, tier, tmp, t0):
    spec = os.path.join(ROOT, 'props', pid + '.py')
    if os.path.exists(spec):                    # a check with its own driver
        s = importlib.util.spec_from_file_location('check', spec)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        return m.run(sys.modules[__name__], pid, tier, tmp, t0)
    return run_cpp(pid, tier, tmp, t0)


def run_cpp(pid, tier, tmp, t0, extra=(), dirs=None):
    src = os.path.join(ROOT, 'props', pid + '.cpp')
    write_mined(tmp, dirs or [os.path.join(INC, d) for d in ('core', 'dsp', 'num', 'std')])
    exe = os.path.join(tmp, pid)
    flags = [x.replace('{ROOT}', ROOT) for x in re.findall(r'^// flags: (.*)$', open(src).read(), flags=re.M)]
    plain = re.search(r'^// plain$', open(src).read(), flags=re.M)      # the code under test runs elsewhere (device code)
    comp = re.search(r'^// compiler: (\S+)$', open(src).read(), flags=re.M)
    cmd = ([comp.group(1)] + CXX[1:] if comp else CXX) + (['-O2'] if plain else SAN) + ['-I', tmp, '-I', INC, '-I', ROOT, *extra] + [x for f in flags for x in f.split()] + ['-o', exe, src]
    dev = device_build(tmp, src)
    fz = None if '--replay' in sys.argv else fuzz_build(pid, tier, tmp, extra, flags, src)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        if fz:
            fz['process'].communicate()
        return compile_violation(pid, tier, 'the harness', cmd, r.stderr, t0)
    for name, dcmd, p in dev:
        err = p.communicate()[1]
        if p.returncode != 0:
            if fz:
                fz['process'].communicate()
            return compile_violation(pid, tier, 'the device program ' + name, dcmd, err, t0)
    if '--replay' in sys.argv:
        return subprocess.run([exe, '--replay', sys.argv[sys.argv.index('--replay') + 1]]).returncode
    sys.stdout.flush()
    rc = subprocess.run([exe]).returncode
    if fz:
        err = fz['process'].communicate()[1]
        if rc == 0:
            rc = fuzz(pid, tier, tmp, t0, fz, err, exe)
    return rc if rc in (0, 1) else 2


AVR = ['avr-g++', '-std=c++17', '-fno-exceptions', '-fno-threadsafe-statics', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-w', '-Wl,--defsym=__TEXT_REGION_LENGTH__=128K']


def device_build(tmp, src):
    """start building the AVR programs named by lines '// device: NAME SOURCE FLAGS...'; the result is NAME.elf in tmp"""
    out = []
    for m in re.finditer(r'^// device: (\S+) (\S+) ?(.*)$', open(src).read(), flags=re.M):
        name, dsrc, flags = m.groups()
        cmd = AVR + ['-I', INC, '-I', ROOT, '-I', tmp] + flags.split() + ['-o', os.path.join(tmp, name + '.elf'), os.path.join(REPO, dsrc[5:]) if dsrc.startswith('repo:') else os.path.join(ROOT, dsrc), '-lm']
        out.append((name, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    return out


def fuzz_build(pid, tier, tmp, extra, flags, src):
    """start building the libFuzzer target"""
    if os.environ.get('PBT_NOFUZZ'):
        return None
    runs = int(os.environ.get('PBT_FUZZ_RUNS', '0') or 0)
    if not runs:
        m = re.search(r'^// fuzz: quick=(\d+) thorough=(\d+)$', open(src).read(), flags=re.M)
        if not m:
            return None
        runs = int(m.group(2 if tier == 'thorough' else 1))
    if runs == 0:
        return None
    fexe = os.path.join(tmp, pid + '.fuzz')
    plain = re.search(r'^// plain$', open(src).read(), flags=re.M)
    cmd = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-DPBT_FUZZ', '-fsanitize=fuzzer' if plain else '-fsanitize=fuzzer,address,undefined', '-fno-sanitize=shift',
           '-fno-sanitize-recover=all', '-ffp-contract=off', '-I', tmp, '-I', INC, '-I', ROOT, *extra] + [x for f in flags for x in f.split()] + ['-o', fexe, src]
    return {'process': subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), 'exe': fexe, 'runs': runs}


def fuzz(pid, tier, tmp, t0, fz, err, exe):
    """coverage-guided search over the same properties (libFuzzer); a failure is replayed and shrunk by the main program"""
    jobs = 8
    runs = fz['runs']
    fexe = fz['exe']
    if fz['process'].returncode != 0:
        print('libFuzzer build failed (generated cases above stand):', err[:1500])
        return 0
    seed = int(os.environ['VERIF_SEED'])
    ps = []
    for j in range(jobs):
        d = os.path.join(tmp, 'corpus%d' % j)
        os.mkdir(d)
        out = os.path.join(tmp, 'fuzz-failure%d.txt' % j)
        e = dict(os.environ, PBT_FUZZ_OUT=out)
        log = open(os.path.join(tmp, 'fuzz%d.log' % j), 'w')
        ps.append((subprocess.Popen([fexe, '-runs=%d' % runs, '-seed=%d' % (seed * 100 + j + 1), '-max_len=%d' % (1024 if j % 2 else 256),
                                     '-use_value_profile=%d' % (j % 2), '-timeout=120', '-rss_limit_mb=3000', '-artifact_prefix=' + tmp + '/', d],
                                    cwd=tmp, env=e, stdout=log, stderr=log), out, log.name))
    execs = 0
    cov = []
    failed = []
    for p, out, log in ps:
        p.wait()
        t = open(log, errors='replace').read()
        m = re.findall(r'#(\d+)\s', t)
        execs += max([int(x) for x in m] or [0])
        m = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', t)
        if m:
            cov.append(m[-1])
        if p.returncode != 0 and os.path.exists(out):
            failed.append(out)
    ev = os.path.join(ROOT, 'evidence', pid + '.json')
    d = json.load(open(ev))
    d['coverage']['fuzz'] = {'executions': execs, 'processes': jobs, 'edges_features_corpus': cov}
    d['wall_s'] = round(time.time() - t0, 2)
    rc = 0
    for f in failed:
        # the fuzzer's finding must also fail in the ordinary build
        dst = os.path.join(ROOT, 'replays')
        os.makedirs(dst, exist_ok=True)
        r = subprocess.run([exe, '--minimize', f])
        if r.returncode == 1:
            d['violations'] = 1
            rc = 1
            break
        print('a fuzzer input failed only in the fuzz build; set aside')
    json.dump(d, open(ev, 'w'), indent=1)
    print('%s fuzz: %d executions, coverage (edges, features, corpus) %s' % (pid, execs, cov[:2]))
    return rc


if __name__ == '__main__':
    main()
