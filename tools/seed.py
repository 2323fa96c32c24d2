#!/usr/bin/env python3
"""Makes and tries planted bugs: seed.py SPEC.py [id ...]

A spec file defines SEEDS, a list of dicts:
  id, prop, needs, breaks, edits=[(file, old, new), ...] and either
  demo = text of demo.sh (after the prologue), or
  prog [, stdin, args, files={name: text}, show=[file names to print]]: the demo runs the program and compares
  stdout, the exit status and the shown files with what the unchanged tree prints.
For each seed: patch against /repo's HEAD in a scratch copy, check that only lines of the original commit change,
build, run the 13 tests, run the demo on both trees, then run the property's quick check on the patched copy
(PSC_REPO). Nothing is written to /repo. Result files go to /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, importlib.util, re

BASE = '9b7bedc'
WT = '/tmp/seedwt'
OUT = '/verif/seeded'

PROLOGUE = '''#!/bin/bash
# cwd is the built repository; everything happens in a scratch directory
exe="$PWD/_build/PseudoEngine2"
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 99
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 99
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, errors='replace', **kw)

def prepare():
    if os.path.exists(WT): shutil.rmtree(WT)
    sh(['git', 'clone', '-q', '/repo', WT])
    build(WT)

def build(d):
    env = dict(os.environ, CC='gcc', CXX='g++')
    if not os.path.exists(d + '/_build/build.ninja'):
        r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error', cwd=d, env=env)
        if r.returncode: return r.stdout + r.stderr
    r = sh('ninja -C _build -j8', cwd=d, env=env)
    return None if r.returncode == 0 else r.stdout[-3000:]

def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"

def make_demo(seed, expect=None):
    t = PROLOGUE
    if 'demo' in seed:
        return t + seed['demo']
    for name, data in (seed.get('files') or {}).items():
        t += 'printf %s ' + quote(data).replace('%', '%') + ' > ' + quote(name) + '\n' if False else \
             "cat > " + quote(name) + " <<'_END_FILE_'\n" + data + "_END_FILE_\n"
    runs = seed.get('progs') or [seed['prog']]
    t += ': > out\n'
    for i, p in enumerate(runs):
        if not p.endswith('\n'): p += '\n'
        t += "cat > prog%d <<'_END_PROG_'\n%s_END_PROG_\n" % (i, p)
    stdin = seed.get('stdin', '')
    t += "cat > input <<'_END_IN_'\n" + stdin + "_END_IN_\n"
    for i, p in enumerate(runs):
        t += 'timeout 20 "$exe" %s < input >> out 2>> err\necho "exit $?" >> out\n' % ((seed.get('args', '') + ' prog%d' % i) if not seed.get('repl') else '')
        if seed.get('errlines'):
            t += "grep -o 'line [0-9]*' err >> out\n"
    for s in seed.get('show', ()):
        t += 'cat %s >> out\n' % quote(s)
    if expect is None:
        return t + 'cat out\n'
    t += "cat > expected <<'_END_OUT_'\n" + expect + "_END_OUT_\n"
    t += 'cmp -s out expected && exit 0\ndiff expected out\nexit 1\n'
    return t

def rundemo(text, tree, extra=None):
    d = '/tmp/seeddemo'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d + '/demo.sh', 'w').write(text)
    r = sh(['bash', d + '/demo.sh'], cwd=tree, timeout=300)
    shutil.rmtree(d)
    return r

def one(seed, check=True, tier='quick'):
    sid = seed['id']
    sh('git checkout -q -- . && git clean -fdq src', cwd=WT)
    sh('git fetch -q && git reset -q --hard origin/HEAD', cwd=WT)
    for f, old, new in seed['edits']:
        p = WT + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: edit of %s matches %d times: %r' % (sid, f, s.count(old), old[:80])
        # the lines that go away must be original
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=WT).stdout
    # blame
    warn = ''
    cur = None
    removed = 0
    bad = []
    for m in re.finditer(r'^--- a/(.*)$|^@@ -(\d+)(?:,(\d+))? .*$|^(-)(?!--).*$|^([ +]).*$', sh('git diff -U0', cwd=WT).stdout, re.M):
        if m.group(1): cur = m.group(1)
        elif m.group(2):
            a, n = int(m.group(2)), int(m.group(3) or 1)
            if n:
                removed += n
                bl = sh('git blame -s -l -L %d,+%d HEAD -- %s' % (a, n, cur), cwd=WT).stdout
                for line in bl.splitlines():
                    if not line.lstrip('^').startswith(BASE): bad.append(line)
    if bad: warn += ' NOT-ORIGINAL:\n   ' + '\n   '.join(bad)
    if not removed: warn += ' ONLY-ADDS'
    # unchanged
    err = None
    sh('git stash -q', cwd=WT)
    if build(WT): return sid + ': base build failed'
    if 'demo' not in seed:
        expect = rundemo(make_demo(seed), WT).stdout
    else: expect = None
    demo = make_demo(seed, expect)
    r0 = rundemo(demo, WT)
    sh('git stash pop -q', cwd=WT)
    err = build(WT)
    if err: return sid + ': build fails: ' + err
    r1 = rundemo(demo, WT)
    sh('rm -rf _build/new.txt _build/random.dat', cwd=WT)
    t = sh('ctest --test-dir _build -j8 --timeout 60', cwd=WT)
    ok = '100% tests passed' in t.stdout
    out = '%s [%s] demo %d/%d tests %s%s\n' % (sid, seed['prop'], r0.returncode, r1.returncode, 'ok' if ok else 'FAIL ' + t.stdout[-600:], warn)
    out += '   demo diff: ' + r1.stdout[:400].replace('\n', '\n   ') + '\n'
    good = ok and r0.returncode == 0 and r1.returncode != 0 and not warn
    if good:
        d = OUT + '/' + sid
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': seed['prop'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    else:
        out += '   *** REJECTED ***\n'
    if check:
        for prop in [seed['prop']] + list(seed.get('also', ())):
            env = dict(os.environ, PSC_REPO=WT, VERIF_SEED='1', VERIF_TIER=tier)
            import time
            t0 = time.time()
            try:
                c = sh(['python3', '/verif/run.py', prop, tier], cwd='/verif', env=env, timeout=1200)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                out += '   check %s: exit %d %.0fs %s\n' % (prop, c.returncode, time.time() - t0, v[0] if v else (c.stdout + c.stderr)[-300:])
            except subprocess.TimeoutExpired:
                out += '   check %s: TIMEOUT\n' % prop
    sh('git checkout -q -- .', cwd=WT)
    return out

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--nocheck' not in sys.argv
    spec = importlib.util.spec_from_file_location('seedspec', args[0])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    if not os.path.exists(WT) : prepare()
    for s in m.SEEDS:
        if len(args) > 1 and s['id'] not in args[1:]: continue
        print(one(s, check), flush=True)
