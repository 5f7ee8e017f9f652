"""W01: the device build scripts build what they are asked for.

Generated invocations of script/avr-gcc.py with a stand-in tool chain whose outputs record how they were made, so that
the finished image tells which sources, options and steps it comes from; some with the real tool chain, where the image
is compared with the program; the upload script with a stand-in; the mk-*.py scripts of examples and timing program.
A failing invocation is shrunk (fewer sources and options) and saved as the replay file."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

TOOLS = ['avr-g++', 'avr-objcopy', 'avr-size', 'avrdude']
NAMES = ['main', 'a', 'b', 'filter', 'blink.e', 'x.y.z', 'avr-adc', 'k_1', 'Kalman', 'cpp', 'sub/inner', 'sub/a', 'other/deep/file']


def parse(text):
    """what a stand-in wrote: (tool, args, {input: parsed or text})"""
    pos = 0
    tool, args, inputs = None, [], []
    while pos < len(text):
        end = text.index('\n', pos)
        line = text[pos:end]
        pos = end + 1
        if line.startswith('tool '): tool = line[5:]
        elif line.startswith('arg '): args.append(line[4:])
        elif line.startswith('input '):
            name, n = line[6:].rsplit(' ', 1)
            body = text[pos:pos + int(n)]
            pos += int(n) + 1
            inputs.append((name, parse(body) if body.startswith('tool ') else body))
    return tool, args, inputs


def value(args, prefix):
    """the last one counts"""
    v = [a[len(prefix):] for a in args if a.startswith(prefix)]
    return v[-1] if v else None


def joined(args, k):
    """an option's value, in the same or the next argument"""
    return value(args, k) or value_after(args, k)


def words(c):
    """the command line of a build case"""
    a = []
    for k, v in c['options']:
        a.append(k + v if k in ('-D', '-I', '-O') else k + '=' + v if k.startswith('-std') or k in ('-mmcu', '-fcpu') else k)
        if k == '--output': a.append(v)
    return a + c['inputs']


def want(c):
    o = dict(std='c++17', O='2', mmcu='atmega328p', fcpu='16000000', D=[], I=[], out=None, verbose=0, macros=False)
    for k, v in c['options']:
        if k in ('-D', '-I'): o[k[1]].append(v)
        elif k == '--output': o['out'] = v
        elif k == '-v': o['verbose'] += 1
        elif k == '-m': o['macros'] = True
        elif k == '-d': pass
        else: o[k[1:]] = v
    return o


def expand(c):
    """the sources the inputs name, in order (directories and missing files are not sources)"""
    out = []
    for i in c['inputs']:
        if '*' in i:
            r = re.compile(re.escape(i).replace(r'\*', '[^/]*') + r'\Z')
            out.append(sorted(f for f in c['files'] if r.match(f)))
        else:
            out.append([i] if i in c['files'] else [])
    return out


def base(f):
    return f[:f.rindex('.')] if '.' in os.path.basename(f) else f


def toolchain(tmp, root):
    b = os.path.join(root, 'bin')
    os.makedirs(b, exist_ok=True)
    for t in TOOLS:
        os.symlink(os.path.join(tmp, 'standin'), os.path.join(b, t))


def script(repo, name, args, cwd, root, log=None):
    env = dict(os.environ, AVR_GCC_ROOT=root)
    if root is None: env.pop('AVR_GCC_ROOT')
    if log: env['STANDIN_LOG'] = log
    return subprocess.run([sys.executable, os.path.join(repo, 'script', name)] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=120)


def options_ok(args, o, what):
    for k, w in (('-std=', o['std']), ('-O', o['O']), ('-mmcu=', o['mmcu']), ('-DF_CPU_HZ=', o['fcpu'])):
        if value(args, k) != w: return '%s has %s%s, want %s' % (what, k, value(args, k), w)
    d = [a[2:] for a in args if a.startswith('-D') and not a.startswith('-DF_CPU_HZ=')]
    if d != o['D']: return '%s has definitions %s, want %s' % (what, d, o['D'])
    i = [a[2:] for a in args if a.startswith('-I')]
    if i != o['I']: return '%s has include paths %s, want %s' % (what, i, o['I'])
    return None


def is_image(path, out, groups, o):
    """the finished image was made from the program, and that from these sources"""
    if not os.path.exists(path): return 'there is no ' + os.path.basename(path)
    tool, args, inp = parse(open(path).read())
    eep = path.endswith('.eep')
    if tool != 'avr-objcopy' or value_after(args, '-O') != 'ihex': return '%s was made by %s %s' % (path, tool, args)
    if eep and value_after(args, '-j') != '.eeprom': return 'the EEPROM image holds section %s' % value_after(args, '-j')
    if not eep and (value_after(args, '-R') != '.eeprom' or '-j' in args): return 'the program image was made with %s' % args
    if len(inp) != 1 or inp[0][0] != out + '.elf': return '%s was made from %s' % (path, [i[0] for i in inp])
    tool, args, inp = inp[0][1]
    if tool != 'avr-g++' or '-c' in args or '-S' in args: return 'the program was made with %s %s' % (tool, args)
    for k, w in (('-O', o['O']), ('-mmcu=', o['mmcu'])):
        if value(args, k) != w: return 'the program was linked with %s%s, want %s' % (k, value(args, k), w)
    objs = []
    for name, content in inp:
        if not isinstance(content, tuple): return 'the program was linked from %s' % name
        t, a, i = content
        if t != 'avr-g++' or '-c' not in a: return '%s was made with %s %s' % (name, t, a)
        if len(i) != 1: return '%s was compiled from %s' % (name, [x[0] for x in i])
        e = options_ok(a, o, name)
        if e: return e
        objs.append(i[0])
    got = [x[0] for x in objs]
    k = 0
    for g in groups:            # files of one pattern: in any order
        if sorted(got[k:k + len(g)]) != g: return 'the program consists of %s, want %s' % (got, [x for h in groups for x in h])
        k += len(g)
    if k != len(got): return 'the program consists of %s, want %s' % (got, [x for h in groups for x in h])
    for n, text in objs:
        if text != '// ' + n + '\n': return '%s was changed' % n
    return None


def value_after(args, k):
    return args[args.index(k) + 1] if k in args and args.index(k) + 1 < len(args) else None


def build_case(c, tmp, repo):
    d = tempfile.mkdtemp(dir=tmp)
    work = os.path.join(d, 'work')
    os.makedirs(work)
    try:
        root = os.path.join(d, c['root'])
        toolchain(tmp, root)
        for f in c['files']:
            os.makedirs(os.path.dirname(os.path.join(work, f)) or work, exist_ok=True)
            open(os.path.join(work, f), 'w').write('// ' + f + '\n')
        for f in c['dirs']: os.makedirs(os.path.join(work, f), exist_ok=True)
        o = want(c)
        log = os.path.join(d, 'log')
        r = script(repo, 'avr-gcc.py', words(c), work, root, log)
        if 'Traceback' in r.stderr or ': error:' in r.stdout: return 'the script fails: ' + (r.stdout + r.stderr).strip()[-300:]
        groups = expand(c)
        n = sum(map(len, groups))
        have = sorted(os.path.relpath(os.path.join(p, f), work) for p, _, fs in os.walk(work) for f in fs)
        calls = open(log).read() if os.path.exists(log) else ''
        if o['macros']:
            if have != sorted(c['files']): return 'reporting macros leaves %s' % have
            t, a, _ = parse(calls.split('\nend\n')[0] + '\n')
            if t != 'avr-g++' or '-dM' not in a or '-E' not in a or value(a, '-mmcu=') != o['mmcu'] or value(a, '-std=') != o['std'] or value(a, '-O') != o['O']: return 'macros are reported by %s %s' % (t, a)
            return None
        if n == 0:
            if have != sorted(c['files']): return 'without a source the script makes %s' % have
            if 'no files' not in r.stdout: return 'without a source the script says %r' % r.stdout
            return None
        out = o['out']
        first = None
        if out is None:
            cand = [base(f) for f in groups[[bool(g) for g in groups].index(True)]]
            cand = [b for b in cand if b + '.elf' in have]
            if len(cand) != 1: return 'the program is not named after the first source: %s' % have
            out = cand[0]
        for ext in ('.hex', '.eep'):
            e = is_image(os.path.join(work, out + ext), out, groups, o)
            if e: return e
        for g in groups:
            for f in g:
                p = os.path.join(work, base(f) + '.s')
                if not os.path.exists(p): return 'there is no assembly of ' + f
                t, a, i = parse(open(p).read())
                if t != 'avr-g++' or '-S' not in a or [x[0] for x in i] != [f]: return 'the assembly of %s was made with %s %s' % (f, t, a)
                e = options_ok(a, o, base(f) + '.s')
                if e: return e
        expect = set(c['files']) | {out + e for e in ('.elf', '.hex', '.eep')} | {base(f) + e for g in groups for f in g for e in ('.o', '.s')}
        if set(have) != expect: return 'files left: %s, want %s' % (have, sorted(expect))
        if 'processed %d file%s' % (n, 's' if n > 1 else '') not in r.stdout: return 'the script says %r for %d sources' % (r.stdout, n)
        if o['verbose'] > 1 and 'tool avr-size\narg %s.hex\n' % out not in calls: return 'the size of the image is not printed'
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ihex(path):
    mem, top = {}, 0
    for l in open(path):
        l = l.strip()
        b = bytes.fromhex(l[1:])
        if sum(b) & 255: raise ValueError('checksum')
        n, a, t = b[0], b[1] << 8 | b[2], b[3]
        if t == 0:
            for i in range(n): mem[top + a + i] = b[4 + i]
        elif t == 2: top = (b[4] << 8 | b[5]) << 4
        elif t == 4: top = (b[4] << 8 | b[5]) << 16
    return mem


def real_case(c, tmp, repo):
    """the real tool chain: the image is the program, with the definitions in it"""
    d = tempfile.mkdtemp(dir=tmp)
    os.makedirs(os.path.join(d, 'inc'))
    try:
        k = c['values']
        open(os.path.join(d, 'inc', 'header.hpp'), 'w').write('#define FROM_HEADER "H%dH"\n' % k[0])
        open(os.path.join(d, 'main.cpp'), 'w').write('#include "header.hpp"\n#define S_(x) #x\n#define S(x) S_(x)\nextern "C" { extern char const other[]; volatile char const * volatile p; char const mine[] __attribute__((used)) = "V" S(VALUE) "V" FROM_HEADER "F" S(F_CPU_HZ) "F"; }\nint main() { p = mine; p = other; for (;;) ; }\n')
        open(os.path.join(d, 'other.cpp'), 'w').write('extern "C" { extern char const other[]; char const other[] = "O%dO"; }\n' % k[1])
        if c['eeprom']:
            open(os.path.join(d, 'main.cpp'), 'a').write('#include <avr/eeprom.h>\nunsigned char ee[] EEMEM __attribute__((used)) = { %d, %d };\n' % (k[2] & 255, k[0] & 255))
        r = script(repo, 'avr-gcc.py', ['-O' + c['O'], '-DVALUE=%d' % k[2], '-Iinc', '-fcpu=%dL' % k[3], '--output', 'prog', 'main.cpp', 'other.cpp'], d, '/usr')
        p = os.path.join(d, 'prog')
        if not os.path.exists(p + '.hex'): return 'there is no image: ' + (r.stdout + r.stderr)[-400:]
        subprocess.run(['avr-objcopy', '-O', 'binary', '-R', '.eeprom', p + '.elf', p + '.bin'], check=True, capture_output=True)
        b = open(p + '.bin', 'rb').read()
        m = ihex(p + '.hex')
        if sorted(m) != list(range(len(b))) or bytes(m[i] for i in range(len(b))) != b: return 'the image is not the program'
        for w in ('V%dVH%dHF%dLF' % (k[2], k[0], k[3]), 'O%dO' % k[1]):
            if w.encode() not in b: return 'the image lacks %s' % w
        e = ihex(p + '.eep')
        ee = bytes(e[i] for i in sorted(e))
        if c['eeprom'] and ee != bytes([k[2] & 255, k[0] & 255]): return 'the EEPROM image is %s' % ee.hex()
        if not c['eeprom'] and ee: return 'the EEPROM image is %s for a program without' % ee.hex()
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def upload_case(c, tmp, repo):
    d = tempfile.mkdtemp(dir=tmp)
    try:
        root = os.path.join(d, c['root'])
        toolchain(tmp, root)
        log = os.path.join(d, 'log')
        r = script(repo, 'avr-upload.py', [c['file']] if c['file'] else [], d, root, log)
        calls = open(log).read() if os.path.exists(log) else ''
        if not c['file']: return None if not calls and 'Usage' in r.stdout else 'without a file the upload script runs %r' % calls
        t, a, _ = parse(calls.split('\nend\n')[0] + '\n') if calls else (None, [], [])
        if calls.count('\nend\n') != 1 or t != 'avrdude': return 'the upload script runs %r: %s' % (calls, (r.stdout + r.stderr)[-300:])
        if joined(a, '-U') != 'flash:w:%s:i' % c['file'] or joined(a, '-p') != 'atmega328p' or not joined(a, '-c'): return 'upload of %s runs avrdude %s' % (c['file'], a)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mk_case(c, tmp, repo):
    """a mk-*.py script builds the program beside it, in each of its variants"""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        for s in ('script', 'example', 'time', 'include'):
            shutil.copytree(os.path.join(repo, s), os.path.join(d, s), ignore=shutil.ignore_patterns('_build*'))
        os.makedirs(os.path.join(d, 'path'))
        os.symlink(sys.executable, os.path.join(d, 'path', 'python'))
        root = os.path.join(d, c['root'])
        toolchain(tmp, root)
        f = os.path.join(d, c['script'])
        env = dict(os.environ, AVR_GCC_ROOT=root, PATH=os.path.join(d, 'path') + ':' + os.environ['PATH'])
        r = subprocess.run([sys.executable, os.path.basename(f)], cwd=os.path.dirname(f), env=env, capture_output=True, text=True, timeout=120)
        hexes = sorted(glob.glob(os.path.join(os.path.dirname(f), '*.hex')))
        seen = set()
        for h in hexes:
            t, a, i = parse(open(h).read())
            t, a, i = i[0][1]
            for name, (t, a, src) in i:
                if not os.path.exists(os.path.join(os.path.dirname(f), src[0][0])): return 'made from %s' % src[0][0]
                if value(a, '-mmcu=') != 'atmega328p' or value(a, '-DF_CPU_HZ=') not in ('16000000', '16000000L'): return 'made for %s at %s Hz' % (value(a, '-mmcu='), value(a, '-DF_CPU_HZ='))
                if '#include "' in src[0][1] and '../include' not in ' '.join(x for x in a if x.startswith('-I')): return '%s is compiled without the include path' % src[0][0]
                seen.add((src[0][0], value(a, '-DKE_NUMERIC_TYPE='), value(a, '-DKE_UPDATE_KALMAN_GAIN='), value(a, '-O')))
        if 'time' in c['script']:
            w = {('avr-kalman-time.cpp', n, u, o) for n in ('double', 'fp32_t') for u in '01' for o in 's2'}
            if len(hexes) != 8 or seen != w: return 'variants built: %s; %s' % (sorted(seen, key=str), (r.stdout + r.stderr)[-300:])
        else:
            n = re.sub(r'^mk-(.*)\.py$', r'\1', os.path.basename(c['script']))
            # a recorded finding: this script asks for avr-kalman-sim.cpp, but the program beside it is avr-kalman-sim.e.cpp
            if n == 'avr-kalman-sim.e' and not hexes and ' avr-kalman-sim.cpp\n' in r.stdout and 'no files' in r.stdout and not os.path.exists(os.path.join(os.path.dirname(f), 'avr-kalman-sim.cpp')):
                return 'known mk-avr-kalman-sim-name mk-avr-kalman-sim.e.py builds nothing: there is no avr-kalman-sim.cpp'
            if [os.path.basename(h) for h in hexes] != [n + '.hex'] or {x[0] for x in seen} != {n + '.cpp'}: return 'built: %s from %s; %s' % ([os.path.basename(h) for h in hexes], sorted(x[0] for x in seen), (r.stdout + r.stderr)[-300:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def macro_case(c, tmp, repo):
    """the predefined macros are those of the compiler"""
    if c['how'] == 'predefined': r = script(repo, 'avr-gcc-predefined.py', [], tmp, '/usr')
    else: r = script(repo, 'avr-gcc.py', ['-m'] + ['-' + x for x in c['args']], tmp, '/usr')
    std = [x[4:] for x in c['args'] if x.startswith('std=')]
    opt = [x for x in c['args'] if x.startswith('O')]
    cmd = ['avr-g++', '-E', '-dM', '-mmcu=atmega328p'] + ([] if c['how'] == 'predefined' else ['-xc++', '-std=' + (std or ['c++17'])[-1], '-' + (opt or ['O2'])[-1]]) + ['-']
    cmd2 = [x for x in cmd if x != '-'] + ['-xc++' if '-xc++' in cmd else '-xc', '-']
    ref = subprocess.run(cmd2, input='', capture_output=True, text=True).stdout
    ref2 = subprocess.run([x for x in cmd2[:-2] if x != '-xc++'] + ['-xc++', '-'], input='', capture_output=True, text=True).stdout
    got = set(l for l in r.stdout.splitlines() if l.startswith('#define'))
    if not got: return 'no macros are reported: ' + (r.stdout + r.stderr)[-300:]
    if got not in (set(ref.splitlines()), set(ref2.splitlines())): return 'macros reported differ: %s' % sorted(got ^ set(ref.splitlines()))[:6]
    return None


def project_copy(repo, d):
    for x in ('script', 'example', 'time', 'include', 'cmake', 'test'):
        shutil.copytree(os.path.join(repo, x), os.path.join(d, x), ignore=shutil.ignore_patterns('_build*'))
    for x in ('CMakeLists.txt', 'Build-AVR.py', 'Build-PC.py'): shutil.copy(os.path.join(repo, x), d)
    os.makedirs(os.path.join(d, 'build'))


def cmake_case(c, tmp, repo):
    """the project built for the device: every program is made from its source with the chosen device, clock and optimisation"""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        project_copy(repo, d)
        root = os.path.join(d, c['root'])
        toolchain(tmp, root)
        os.symlink(os.path.join(tmp, 'standin'), os.path.join(root, 'bin', 'avr-gcc'))
        env = dict(os.environ, AVR_GCC_ROOT=root, MAKEFLAGS='')
        b = os.path.join(d, 'build')
        o = dict(AVR_MCU='atmega328p', AVR_FMCU='16000000L', AVR_CXX_OPT='-O2', AVR_CXX_STD='c++17', FILENAME_WITH_MCU_TYPE='ON', KE_OPT_BUILD_TEST='ON', KE_OPT_BUILD_EXAMPLE='ON', KE_OPT_BUILD_TIME='ON')
        o.update(c['set'])
        if not c['set']: r = subprocess.run([sys.executable, 'Build-AVR.py'], cwd=d, env=env, capture_output=True, text=True, timeout=200)
        else:
            r = subprocess.run(['cmake', '-DCMAKE_TOOLCHAIN_FILE=../cmake/toolchain-avr-gcc.cmake', '-G', 'Unix Makefiles'] + ['-D%s=%s' % kv for kv in c['set'].items()] + ['..'], cwd=b, env=env, capture_output=True, text=True, timeout=200)
            if not r.returncode: r = subprocess.run(['make'], cwd=b, env=env, capture_output=True, text=True, timeout=200)
        tail = (r.stdout + r.stderr)[-600:]
        part = '-' + o['AVR_MCU'] if o['FILENAME_WITH_MCU_TYPE'] == 'ON' else ''
        want = {}
        if o['KE_OPT_BUILD_TEST'] == 'ON': want['test/main-avr.t'] = 'test/main-avr.t.cpp'
        if o['KE_OPT_BUILD_EXAMPLE'] == 'ON':
            for n in ('adc-dac-isr-atmega', 'adc-isr', 'blink-led-isr', 'blink-led', 'fade-led', 'kalman-sim'): want['example/avr/avr-%s.e' % n] = 'example/avr/avr-%s.e.cpp' % n
        if o['KE_OPT_BUILD_TIME'] == 'ON': want['time/avr-kalman-time'] = 'time/avr-kalman-time.cpp'
        have = sorted(os.path.relpath(x, b)[:-4] for x in glob.glob(b + '/**/*.hex', recursive=True))
        if have != sorted(k + part for k in want): return 'programs built: %s, want %s with %r; %s' % (have, sorted(want), part, tail)

        def compiled(args, src, f, what):
            for k, w in (('-std=', o['AVR_CXX_STD']), ('-O', o['AVR_CXX_OPT'][2:]), ('-mmcu=', o['AVR_MCU']), ('-DF_CPU_HZ=', o['AVR_FMCU'])):
                if value(args, k) != w: return '%s of %s has %s%s, want %s' % (what, f, k, value(args, k), w)
            if os.path.join(d, 'include') not in [os.path.normpath(a[2:]) for a in args if a.startswith('-I')]: return '%s of %s is made without the include path' % (what, f)
            if os.path.normpath(src) != os.path.join(d, want[f]): return '%s of %s is made from %s' % (what, f, src)

        for f in want:
            for ext in ('.hex', '.eep'):
                p = os.path.join(b, f + part + ext)
                if not os.path.exists(p): return 'there is no %s; %s' % (f + part + ext, tail)
                t, a, i = parse(open(p).read())
                if t != 'avr-objcopy' or value_after(a, '-O') != 'ihex' or (value_after(a, '-j') if ext == '.eep' else value_after(a, '-R')) != '.eeprom': return '%s made with %s %s' % (p, t, a)
                t, a, i = i[0][1]
                if t != 'avr-g++' or '-c' in a or value(a, '-mmcu=') != o['AVR_MCU'] or len(i) != 1: return '%s linked with %s %s' % (f, t, a)
                t, a, i = i[0][1]
                e = compiled(a, i[0][0], f, 'the object')
                if e: return e
            t, a, i = parse(open(os.path.join(b, os.path.dirname(f), os.path.basename(f).split('.')[0] + part + '.s')).read())
            if '-S' not in a: return 'the assembly of %s is made with %s' % (f, a)
            e = compiled(a, i[0][0], f, 'the assembly')
            if e: return e
        if want and c.get('upload') is not None:
            f = sorted(want)[c['upload'] % len(want)]
            log = os.path.join(d, 'log')
            r = subprocess.run(['make', 'upload_' + os.path.basename(f)], cwd=os.path.join(b, os.path.dirname(f)), env=dict(env, STANDIN_LOG=log), capture_output=True, text=True, timeout=200)
            calls = [parse(x + '\n') for x in open(log).read().split('\nend\n')[:-1]] if os.path.exists(log) else []
            calls = [x for x in calls if x[0] == 'avrdude']
            if len(calls) != 1 or value_after(calls[0][1], '-U') != 'flash:w:%s:i' % (os.path.basename(f) + part + '.hex') or value_after(calls[0][1], '-p') != o['AVR_MCU']: return 'upload of %s runs %s; %s' % (f, calls, (r.stdout + r.stderr)[-300:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pc_case(c, tmp, repo):
    """the project built for the desktop: tests that pass, examples that run"""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        project_copy(repo, d)
        b = os.path.join(d, 'build')
        env = dict(os.environ, MAKEFLAGS='-j3')
        for k in ('CXXFLAGS', 'CPPFLAGS', 'LDFLAGS'): env.pop(k, None)
        if c['opts']:
            r = subprocess.run('cmake -G "Unix Makefiles" %s .. && make' % ' '.join('-D%s=OFF' % x for x in c['opts']), shell=True, cwd=b, env=env, capture_output=True, text=True, timeout=400)
        else: r = subprocess.run([sys.executable, 'Build-PC.py'], cwd=d, env=env, capture_output=True, text=True, timeout=400)
        tail = (r.stdout + r.stderr)[-600:]
        want = {'test/main-cpp17.t'} if 'KE_OPT_BUILD_TEST' not in c['opts'] else set()
        if 'KE_OPT_BUILD_EXAMPLE' not in c['opts']: want |= {'example/desktop/%s.e' % x for x in ('biquad', 'biquad-cascade', 'chebyshev-design', 'covariance-error', 'kalman-sim', 'matrix', 'range')}
        have = {os.path.relpath(x, b) for x in glob.glob(b + '/*/*.t') + glob.glob(b + '/*/*/*.e') if os.path.isfile(x)}
        if not want <= have or (c['opts'] and have - want): return 'programs built: %s, want %s; %s' % (sorted(have), sorted(want), tail)
        for x in sorted(want):
            r = subprocess.run([os.path.join(b, x)], capture_output=True, text=True, timeout=100)
            if r.returncode or (not r.stdout and x.startswith('example')): return '%s ends with %d after %d characters: %s' % (x, r.returncode, len(r.stdout), (r.stdout + r.stderr)[-300:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = {'pc': pc_case, 'cmake': cmake_case, 'build': build_case, 'real': real_case, 'upload': upload_case, 'mk': mk_case, 'macros': macro_case}


def generate(rnd, tier, repo):
    cases = []
    roots = ['avr', 'opt/avr-gcc-8.1.0', 'Program Files/avr gcc', 'x']
    for _ in range(6000 if tier == 'thorough' else 360):
        names = [n + rnd.choice(['.cpp', '.cpp', '.c', '.e.cpp']) for n in rnd.sample(NAMES, rnd.randint(1, 5))]
        seen, files = set(), []
        for n in names:
            if base(n) not in seen: seen.add(base(n)); files.append(n)
        inputs, dirs = [], []
        how = rnd.random()
        if how < 0.2: inputs = ['*.cpp']
        elif how < 0.3: inputs = ['sub/*.cpp', 'main.*']
        elif how < 0.35: inputs = ['nothing*.cpp']
        elif how < 0.38: inputs = ['missing.cpp']
        else: inputs = rnd.sample(files, rnd.randint(1, len(files)))
        if how > 0.9: inputs.insert(rnd.randint(0, len(inputs)), 'missing.cpp')
        elif how > 0.85: dirs.append('folder.cpp'); inputs.insert(rnd.randint(0, len(inputs)), 'folder.cpp')
        if rnd.random() < 0.03: inputs = []
        opts = []
        for _ in range(rnd.choice([0, 0, 1, 2, 3, 5, 8])):
            opts.append(rnd.choice([('-D', rnd.choice(['NDEBUG', 'X=1', 'KE_NUMERIC_TYPE=fp32_t', 'Y=a.b', 'X=2'])), ('-D', 'N%d=%d' % (rnd.randrange(9), rnd.randrange(99))),
                                    ('-I', rnd.choice(['include', '../include', '.', '/usr/include/x', 'a/b'])), ('-O', rnd.choice('s0123g')), ('-std', rnd.choice(['c++14', 'c++17', 'gnu++17', 'c++2a'])),
                                    ('-mmcu', rnd.choice(['atmega328p', 'atmega2560', 'attiny85'])), ('-fcpu', rnd.choice(['8000000', '16000000L', '20000000UL', '1000000'])),
                                    ('--output', rnd.choice(['prog', 'out.dir.name', 'main', 'image-1', 'sub_x'])), ('-v', ''), ('-v', ''), ('-d', '')]))
        if rnd.random() < 0.04: opts.insert(rnd.randint(0, len(opts)), ('-m', ''))
        cases.append({'kind': 'build', 'root': rnd.choice(roots), 'files': files, 'dirs': dirs, 'inputs': inputs, 'options': opts})
    for _ in range(160 if tier == 'thorough' else 16):
        cases.append({'kind': 'real', 'O': rnd.choice('s0123'), 'values': [rnd.randrange(100000) for _ in range(3)] + [rnd.choice([1000000, 8000000, 16000000])], 'eeprom': rnd.random() < 0.5})
    for _ in range(200 if tier == 'thorough' else 24):
        cases.append({'kind': 'upload', 'root': rnd.choice(roots), 'file': rnd.choice([None, 'main.hex', 'a.b.hex', 'sub/x.hex', '../up.hex', 'k-%d.hex' % rnd.randrange(99)])})
    for s in sorted(glob.glob(os.path.join(repo, 'example/avr/mk-*.py')) + glob.glob(os.path.join(repo, 'time/mk-*.py'))):
        for r in roots[:2]: cases.append({'kind': 'mk', 'script': os.path.relpath(s, repo), 'root': r})
    for o in ([], ['KE_OPT_BUILD_TEST'], ['KE_OPT_BUILD_EXAMPLE', 'KE_OPT_BUILD_TEST']): cases.insert(0, {'kind': 'pc', 'opts': o})
    for k in range(120 if tier == 'thorough' else 10):
        st = {}
        if k:
            for _ in range(rnd.randint(1, 4)):
                key, vals = rnd.choice([('AVR_MCU', ['atmega168', 'atmega328p', 'atmega2560']), ('AVR_FMCU', ['8000000L', '16000000', '1000000UL']), ('AVR_CXX_OPT', ['-Os', '-O0', '-O3']), ('AVR_CXX_STD', ['c++17', 'gnu++17', 'c++20']), ('FILENAME_WITH_MCU_TYPE', ['OFF', 'ON']),
                                        ('KE_OPT_BUILD_TEST', ['OFF']), ('KE_OPT_BUILD_EXAMPLE', ['OFF']), ('KE_OPT_BUILD_TIME', ['OFF', 'ON'])])
                st[key] = rnd.choice(vals)
        cases.append({'kind': 'cmake', 'root': rnd.choice(roots), 'set': st, 'upload': rnd.randrange(8) if rnd.random() < 0.6 else None})
    cases.append({'kind': 'macros', 'how': 'predefined', 'args': []})
    for a in ([], ['O2'], ['Os', 'std=c++14'], ['std=c++11', 'O0'], ['v'], ['v', 'v', 'v']): cases.append({'kind': 'macros', 'how': 'gcc', 'args': a})
    return cases


def shrink(c, fails, seconds=120):
    changed, end = True, time.time() + seconds
    while changed and time.time() < end:
        changed = False
        cand = []
        for key in ('inputs', 'options', 'files', 'dirs', 'args'):
            for i in range(len(c.get(key, []))):
                cand.append(dict(c, **{key: c[key][:i] + c[key][i + 1:]}))
        for i in c.get('set', {}): cand.append(dict(c, set={k: v for k, v in c['set'].items() if k != i}))
        if c.get('root', 'avr') != 'avr': cand.append(dict(c, root='avr'))
        if c.get('eeprom'): cand.append(dict(c, eeprom=False))
        for q in cand:
            if time.time() > end:
                break
            if fails(q):
                c = q; changed = True
                break
    return c


def describe(c):
    if c['kind'] == 'build': return 'build: avr-gcc.py %s (files %s, root %s)' % (' '.join(words(c)), ' '.join(c['files']), c['root'])
    return json.dumps(c)


def trivial(c):
    return c['kind'] == 'build' and len(c['inputs']) < 2 and not c['options']


def run(runpy, pid, tier, tmp, t0):
    repo = runpy.REPO
    if subprocess.run(['g++', '-std=c++17', '-O1', '-o', os.path.join(tmp, 'standin'), os.path.join(runpy.ROOT, 'fw', 'standin.cpp')]).returncode: return 2

    listed = re.findall(r'^finding: property=%s name=(\S+)' % pid, open(os.environ['PBT_KNOWN']).read(), flags=re.M)
    hits = {}

    def execute(c):
        try:
            e = KINDS[c['kind']](c, tmp, repo)
            if e and e.startswith('known '):
                _, name, text = e.split(' ', 2)
                if name not in listed: return text
                hits.setdefault(name, [0, text])[0] += 1
                return None
            return e
        except ( ValueError, IndexError, KeyError, TypeError ) as e:     # output no stand-in wrote
            return 'unexpected result: %r' % e

    if '--replay' in sys.argv:
        text = open(sys.argv[sys.argv.index('--replay') + 1]).read()
        e = execute(json.loads(text.split('\ncase: ', 1)[1].split('\n', 1)[0]))
        print(e or 'passes')
        return 1 if e else 0
    seed = int(os.environ['VERIF_SEED'])
    rnd = random.Random(seed * 104729 + 7)
    cases = generate(rnd, tier, repo)
    bad, done = None, 0
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {ex.submit(execute, c): c for c in cases}
        for f in cf.as_completed(fut):
            done += 1
            if f.result() is not None:
                bad = fut[f]
                for g in fut: g.cancel()
                break
    path = None
    if bad is not None:
        if execute(bad) is None:
            print('unstable failure of', describe(bad)); return 2
        bad = shrink(bad, lambda q: execute(q) is not None)
        err = execute(bad)
        os.makedirs(os.path.join(runpy.ROOT, 'replays'), exist_ok=True)
        path = os.path.join(runpy.ROOT, 'replays', pid + '-' + hashlib.sha1(json.dumps(bad).encode()).hexdigest()[:16] + '.txt')
        open(path, 'w').write('property: %s\ncase: %s\n%s\nfailure: %s\n' % (pid, json.dumps(bad), describe(bad), err))
        print('failure:', err[:1500])
        print('case:', describe(bad))
    nontriv = {json.dumps(c) for c in cases if not trivial(c)}
    builds = [c for c in cases if c['kind'] == 'build']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(nontriv) if bad is None else 0,
                       'rule': 'invocations of the build, upload and mk scripts with generated sources, patterns, options and tool-chain folders; the image made by a stand-in tool chain records sources, options and steps. Non-trivial: an option or two inputs, or not a stand-in build.',
                       'kinds': {k: sum(c['kind'] == k for c in cases) for k in KINDS},
                       'several_sources': sum(sum(map(len, expand(c))) > 1 for c in builds), 'patterns': sum('*' in ''.join(c['inputs']) for c in builds),
                       'no_source': sum(not any(expand(c)) for c in builds), 'repeated_option': sum(len({o[0] for o in c['options']}) < len(c['options']) for c in builds),
                       'samples': [describe(c) for c in rnd.sample(cases, 8)]},
          'known_findings': {k: v[0] for k, v in hits.items()}, 'wall_s': time.time() - t0, 'violations': 1 if bad else 0}
    for k, v in hits.items(): print('KNOWN-FINDING: property=%s name=%s (%d cases) %s' % (pid, k, v[0], v[1]))
    with open(os.environ.get('PBT_EVIDENCE') or os.path.join(runpy.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d invocations, %.1f s' % (pid, tier, seed, done, time.time() - t0))
    if bad is not None:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
