#!/usr/bin/env python3
"""tools/plant.py ID...   (re)builds and confirms planted bugs in scratch copies of /repo.
seeded/ID/plan.json: {"property", "needs", "what_it_breaks", "edits": [[file, old, new], ...]} (file relative to /repo)
writes patch.diff and meta.json, then confirms: builds, 128 tests pass, demo.sh passes without and fails with the patch.
tools/plant.py --check ID...   also runs the quick check of the property (and of those in "also") with the patch."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANS = os.path.join(ROOT, 'tools', 'plans')


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def copy(dst):
    shutil.copytree('/repo', dst, symlinks=True, ignore=shutil.ignore_patterns('_build', '_build_avr'))
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/repo', dst).replace('/opt/vp/build.sh', dst + '/../build.sh')
        open(os.path.join(os.path.dirname(dst), s), 'w').write(t)


def results(f):
    d = json.load(open(f))
    return set(d['passed'])


def demo(repo, folder, tmp):
    d = os.path.join(tmp, 'demo')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(folder, d, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def plant(pid, check):
    folder = os.path.join(ROOT, 'seeded', pid)
    plan = json.load(open(os.path.join(PLANS, pid + '.json')))
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        copy(repo)
        rc0, out0 = demo(repo, folder, tmp)
        for f, old, new in plan['edits']:
            p = os.path.join(repo, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return '%s: text occurs %d times in %s: %r' % (pid, s.count(old), f, old)
            open(p, 'w', newline='').write(s.replace(old, new))
        open(os.path.join(folder, 'patch.diff'), 'w').write(sh(['git', '-C', repo, 'diff']).stdout)
        json.dump({k: plan[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        # lines the patch removes must be lines of the original repository
        base = {f: set(sh(['git', '-C', repo, 'show', '9702fd8:' + f]).stdout.splitlines()) for f in {e[0] for e in plan['edits']}}
        cur = None
        for l in open(os.path.join(folder, 'patch.diff')):
            if l.startswith('--- a/'): cur = l[6:].strip()
            elif l.startswith('-') and l[1:].rstrip('\n').strip() and l[1:].rstrip('\n') not in base[cur]:
                return '%s: changes a line that is not original: %s' % (pid, l)
        r = sh(['bash', tmp + '/build.sh'])
        if r.returncode: return pid + ': does not build: ' + (r.stdout + r.stderr)[-600:]
        r = sh(['bash', tmp + '/test.sh', tmp + '/o.json'])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        lost = stable - results(tmp + '/o.json')
        if lost: return '%s: tests fail: %s' % (pid, sorted(lost)[:5])
        rc1, out1 = demo(repo, folder, tmp)
        msg = '%s: demo %d -> %d' % (pid, rc0, rc1)
        if rc0 != 0: msg += ' BROKEN DEMO: ' + out0
        if rc1 == 0: msg += ' DEMO DOES NOT FAIL'
        else: msg += ' (' + out1[-120:].replace('\n', ' | ') + ')'
        if check:
            for c in [plan['property']] + plan.get('also', []):
                e = dict(os.environ, PBT_REPO=repo, PBT_EVIDENCE=tmp + '/ev.json', PBT_REPLAYS=tmp)
                r = sh(['python3', os.path.join(ROOT, 'run.py'), c], env=e)
                msg += '\n   %s rc %d %s' % (c, r.returncode, ' | '.join(x[:200] for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'failure'))))
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


a = sys.argv[1:]
check = a[:1] == ['--check']
if check: a = a[1:]
if not a: a = sorted(x[:-5] for x in os.listdir(PLANS))
for x in a:
    print(plant(x, check), flush=True)
