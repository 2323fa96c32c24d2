"""Builds the fork server from /repo's current working tree.

Every file below /repo/src that ends in .cpp is compiled (whatever CMakeLists says), with
main renamed and the verification budget enabled.  The result is keyed by the contents of
the sources, the harness and the flags, so a changed tree is always rebuilt and an
unchanged one never is.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PSC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
HERE = os.path.dirname(os.path.abspath(__file__))

# uninitialised variables hold a pattern, so that reading one shows
COMMON = ['-std=c++20', '-DPSC_VERIF', '-g1', '-w', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
FLAVORS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address,undefined',
             '-fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr,leak',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-DPSC_ASAN'],
}


def have_readline():
    return os.path.exists('/usr/include/readline/readline.h')


def sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(d, f))
    return out


def tree_key(flavor):
    h = hashlib.sha256()
    files = sources() + [os.path.join(REPO, 'PsConfig.h.in'), os.path.join(REPO, 'CMakeLists.txt'),
                         os.path.join(HERE, 'psrun.cpp')]
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b'?')
    h.update(repr((COMMON, FLAVORS[flavor], have_readline())).encode())
    return h.hexdigest()[:20]


def config_header(dest):
    import re
    ver = ['1', '0', '1']
    try:
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
        m = re.search(r'project\s*\([^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read(), re.I) or m
        if m:
            ver = list(m.groups())
    except OSError:
        pass
    text = open(os.path.join(REPO, 'PsConfig.h.in')).read()
    for name, v in zip(('MAJOR', 'MINOR', 'PATCH'), ver):
        text = text.replace('@PseudoEngine2_VERSION_%s@' % name, v)
    open(os.path.join(dest, 'PsConfig.h'), 'w').write(text)
    return '.'.join(ver)


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode('utf8', 'replace')[-4000:])


def build(flavor, log=None):
    key = tree_key(flavor)
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, '%s-%s' % (flavor, key))
    exe = os.path.join(final, 'psrun')
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, '.lock-' + flavor), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        t0 = time.time()
        # keep only the most recent other builds
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(flavor + '-')),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = final + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        config_header(tmp)
        flags = COMMON + FLAVORS[flavor]
        libs = []
        if have_readline():
            flags = flags + ['-DREADLINE']
            libs = ['-lreadline']
        inc = ['-I' + os.path.join(REPO, 'src'), '-I' + tmp]
        # precompiled header (used when it exists as src/pch.h)
        pch = os.path.join(REPO, 'src', 'pch.h')
        pre = []
        if os.path.exists(pch):
            os.makedirs(os.path.join(tmp, 'pch'))
            shutil.copy(pch, os.path.join(tmp, 'pch', 'psc_pch.h'))
            try:
                run(['g++', '-x', 'c++-header'] + flags + ['-Dmain=psc_main'] + inc +
                    [os.path.join(tmp, 'pch', 'psc_pch.h'), '-o', os.path.join(tmp, 'pch', 'psc_pch.h.gch')])
                pre = ['-include', os.path.join(tmp, 'pch', 'psc_pch.h')]
            except BuildError:
                pre = []
        jobs = []
        n = 0
        objs = []
        for s in sources():
            if not s.endswith('.cpp'):
                continue
            o = os.path.join(tmp, '%03d.o' % n)
            n += 1
            objs.append(o)
            jobs.append(['g++'] + pre + flags + ['-Dmain=psc_main'] + inc + ['-c', s, '-o', o])
        o = os.path.join(tmp, 'psrun.o')
        objs.append(o)
        jobs.insert(0, ['g++'] + flags + inc + ['-c', os.path.join(HERE, 'psrun.cpp'), '-o', o])
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(run, jobs))
        link = [f for f in FLAVORS[flavor] if f.startswith('-fsanitize')]
        run(['g++'] + link + objs + libs + ['-o', os.path.join(tmp, 'psrun')])
        for o in objs:
            os.unlink(o)
        shutil.rmtree(os.path.join(tmp, 'pch'), ignore_errors=True)
        shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
        if log:
            log('built %s harness in %.1f s' % (flavor, time.time() - t0))
    return exe


if __name__ == '__main__':
    for f in sys.argv[1:] or list(FLAVORS):
        print(f, build(f, log=print))
