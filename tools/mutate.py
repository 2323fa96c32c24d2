#!/usr/bin/env python3
"""Systematic mutation of the sources in a scratch copy: which checks notice a small change?

mutate.py LOG.jsonl [--files substr,...] [--limit N] [--seed S] [--minutes M] [--ops 1|2]
Operator set 1 changes operators, constants and conditions; set 2 changes storage and order: references become copies,
locals become static, types become narrower, adjacent statements and call arguments change places, control transfers and
"else" disappear, the current scope becomes the global one. Every mutant changes one line of one .cpp file. Mutants that compile to the same object code, that do not build, or
that the project's own tests already reject are only counted. The others are shown to the quick checks of the
properties the file belongs to, cheapest and most successful first, until one reports a violation.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

WT = '/tmp/mutwt'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = {
    'lexer/': 'C10 C11 C02 C20 C17 C12',
    'parser/': 'C03 C02 C04 C11 C19 C06 C20 C12 C09',
    'launch/repl': 'C12', 'launch/runFile': 'C10 C11 C16', 'main.cpp': 'C20 C12 C11 C01',
    'nodes/eval/': 'C02 C19 C18 C05', 'nodes/cast': 'C17 C20 C19 C02 C05', 'nodes/base': 'C02',
    'nodes/functions': 'C04 C05 C11 C08 C09', 'nodes/io/file': 'C15 C14 C13 C16 C05 C08 C11', 'nodes/io/io': 'C05 C20 C02 C08 C11 C17',
    'nodes/loop': 'C03 C08 C11 C20', 'nodes/selection': 'C03 C19 C18 C11',
    'nodes/variable/resolver': 'C06 C07 C09 C04', 'nodes/variable/array': 'C06 C07 C05 C12', 'nodes/variable/comp': 'C07 C12 C05', 'nodes/variable/enum': 'C19 C12 C05',
    'nodes/variable/pointer': 'C09 C12 C05', 'nodes/variable/var': 'C05 C08 C07 C06 C20 C04 C12', 'nodes/nodeResult': 'C05 C04',
    'psc/array': 'C06 C07 C13', 'builtinFunctions/date': 'C18', 'builtinFunctions/char': 'C17', 'builtinFunctions/string': 'C17', 'builtinFunctions/': 'C17 C16 C15',
    'psc/error': 'C11 C20', 'psc/file': 'C15 C14 C16 C13 C01', 'psc/procedure': 'C04 C03 C11', 'psc/variable': 'C04 C05 C06 C07 C08 C09',
    'scope/block': 'C12 C03 C04', 'scope/context': 'C04 C05 C06 C07 C09 C19 C12', 'types/bool': 'C17 C13 C02', 'types/char': 'C17 C13 C02 C05 C01', 'types/date': 'C18 C13 C15',
    'types/numeric': 'C02 C17 C13', 'types/userType': 'C07 C19 C09 C13 C12 C01', 'types/': 'C19 C07 C12 C05 C11',
}
COST = dict(C05=2, C03=7, C17=4, C19=5, C04=6, C07=7, C06=13, C14=15, C15=20, C02=20, C13=10, C10=12, C08=24, C18=28, C12=52, C11=50, C09=55, C16=47, C20=60, C01=100)


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def mask(line):
    """The line with literals and comments blanked."""
    out = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: m.group(0)[0] + '_' * (len(m.group(0)) - 2) + m.group(0)[0], line)
    i = out.find('//')
    return out if i < 0 else out[:i] + ' ' * (len(out) - i)


REPL = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
        (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
        (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'!(?=[a-zA-Z(])', ['']),
        (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', [lambda s: str(int(s) + 1), lambda s: str(int(s) - 1)])]


def mutants(path):
    text = open(path).read().split('\n')
    off = False
    for n, line in enumerate(text):
        s = line.strip()
        if s.startswith('#ifdef PSC_VERIF'):
            off = True
        if s.startswith('#endif'):
            off = False
        if off or not s or 'std::abort' in s or s.startswith(('#', '//', 'case ', 'using', 'extern')):
            continue
        m = mask(line)
        for pat, subs in REPL:
            for h in re.finditer(pat, m):
                for sub in subs:
                    t = sub(h.group(0)) if callable(sub) else sub
                    yield n, line[:h.start()] + t + line[h.end():]
        if m.rstrip().endswith(';') and not re.match(r'\s*(return|else|for|if|while|\}|\)|\w[\w:<>,* &]* [*&]?\w+( =|;|\()|os <<|<<|:|,)', m) and m.count('(') == m.count(')'):
            yield n, re.match(r'\s*', line).group(0) + ';'
        if re.match(r'\s*return [^;]*;$', m) and re.search(r'return (true|false);', m) is None and 'nullptr' not in m and 'make_unique' not in m:
            pass
        h = re.match(r'(\s*(?:\} else )?(?:else )?if \()(.*)(\)( \{| throw .*| return .*| break;| continue;|\s*)?)$', m)
        if h and m.count('(') == m.count(')') or (h and h.group(2).count('(') == h.group(2).count(')')):
            a, b = h.start(2), h.end(2)
            if h.group(2).count('(') == h.group(2).count(')'):
                yield n, line[:a] + '!(' + line[a:b] + ')' + line[b:]
                yield n, line[:a] + 'false && (' + line[a:b] + ')' + line[b:]


REPL2 = [(r'\bauto &', ['auto ']), (r'(?<=[\w>]) &(?=\w+ = )', [' ']), (r'\bint_t\b', ['int']), (r'\breal_t\b', ['float']), (r'\bsize_t\b', ['unsigned char', 'int']),
         (r'\bunsigned long\b', ['unsigned int']), (r'\.back\(\)', ['.front()']), (r'\.front\(\)', ['.back()']), (r'\.begin\(\)', ['.end()']), (r'\belse (?=if)', ['']),
         (r'evaluate\(ctx\)', ['evaluate(*ctx.getGlobalContext())']), (r'resolve\(ctx\)', ['resolve(*ctx.getGlobalContext())']), (r'\bctx\.get(?=Variable|Array|Enum|Pointer|Composite|Type)', ['ctx.getGlobalContext()->get']),
         (r'\bctx\.add', ['ctx.getGlobalContext()->add']), (r'&ctx\b', ['ctx.getGlobalContext()']), (r'\bbreak;', [';']), (r'\bcontinue;', [';', 'break;']), (r'\breturn false;', ['return true;', ';']), (r'\breturn true;', ['return false;', ';']),
         (r'\bwhile \(', ['if (']), (r'std::move\((\w+)\)', [lambda s: s[10:-1]]), (r'\badvance\(\);', [';', 'advance(); advance();'])]
DECL = r'(\s+)((?:const )?(?:bool|int|char|std::\w+(?:<.*>)?|int_t|real_t|size_t|PSC::\w+(?: \*)?|Node \*|auto &?)\s?\*?\w+(?: = .*|\(.*\))?;)$'


def mutants2(path):
    text = open(path).read().split('\n')
    off = False
    for n, line in enumerate(text):
        s = line.strip()
        if s.startswith('#ifdef PSC_VERIF'):
            off = True
        if s.startswith('#endif'):
            off = False
        if off or not s or 'std::abort' in s or s.startswith(('#', '//', 'using', 'extern')):
            continue
        m = mask(line)
        for pat, subs in REPL2:
            for h in re.finditer(pat, m):
                for sub in subs:
                    yield n, line[:h.start()] + (sub(h.group(0)) if callable(sub) else sub) + line[h.end():]
        h = re.match(DECL, line)
        if h:
            yield n, h.group(1) + 'static ' + h.group(2)
        for h in re.finditer(r'\(([^(),]+), ([^(),]+)\)', m):
            yield n, line[:h.start()] + '(' + line[h.start(2):h.end(2)] + ', ' + line[h.start(1):h.end(1)] + ')' + line[h.end():]
        if n + 1 < len(text) and m.rstrip().endswith(';') and mask(text[n + 1]).rstrip().endswith(';') and re.match(r'\s*', line).group(0) == re.match(r'\s*', text[n + 1]).group(0):
            yield n, text[n + 1] + ' SWAP ' + line


def main():
    a = sys.argv[1:]
    log = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    if os.path.exists(WT):
        shutil.rmtree(WT)
    sh(['git', 'clone', '-q', '/repo', WT])
    env = dict(os.environ, CC='gcc', CXX='g++')
    sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build', cwd=WT, env=env)
    inc = '-I%s/src -I%s/_build -std=c++20 -w -O1 -include %s/src/pch.h' % (WT, WT, WT)
    allm = []
    pats = opt.get('--files', '').split(',')
    for d, _, fs in os.walk(WT + '/src'):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), WT)
            if p.endswith('.cpp') and any(x in p for x in pats) and 'type_names' not in p and 'tokens.cpp' not in p:
                allm += [(p, n, l) for n, l in (mutants2 if opt.get('--ops') == '2' else mutants)(os.path.join(WT, p))]
    random.Random(int(opt.get('--seed', 1))).shuffle(allm)
    done = set()
    kills = {}
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new']))
            if r.get('by'):
                k = (r['file'], r['by'])
                kills[k] = kills.get(k, 0) + 1
    end = time.time() + 60 * float(opt.get('--minutes', 600))
    count = 0
    base = {}
    for p, n, new in allm:
        if (p, n + 1, new) in done:
            continue
        if time.time() > end or count >= int(opt.get('--limit', 10 ** 9)):
            break
        full = os.path.join(WT, p)
        orig = open(full).read()
        lines = orig.split('\n')
        old = lines[n]

        def obj():
            r = sh('g++ %s -c %s -o /tmp/mut.o' % (inc, full))
            return None if r.returncode else hashlib.md5(open('/tmp/mut.o', 'rb').read()).hexdigest()
        if p not in base:
            base[p] = obj()
        lines[n] = new
        if ' SWAP ' in new:
            lines[n:n + 2] = new.split(' SWAP ')
        open(full, 'w').write('\n'.join(lines))
        rec = dict(file=p, line=n + 1, old=old.strip(), new=new)
        try:
            o = obj()
            if o is None:
                rec['res'] = 'nobuild'
            elif o == base[p]:
                rec['res'] = 'same'
            elif sh('ninja -C _build', cwd=WT).returncode:
                rec['res'] = 'nobuild'
            else:
                sh('rm -rf _build/new.txt _build/random.dat', cwd=WT)
                t = sh('ctest --test-dir _build -j8 --timeout 20', cwd=WT, timeout=120)
                if '100% tests passed' not in t.stdout:
                    rec['res'] = 'tests'
                else:
                    count += 1
                    key = max((k for k in SRC if k in p), key=len)
                    props = sorted(SRC[key].split(), key=lambda q: (-kills.get((p, q), 0) * 10 / COST[q], SRC[key].split().index(q)))
                    rec['res'] = 'SURVIVED'
                    t0 = time.time()
                    if opt.get('--screen'):
                        c = sh(['python3', HERE + '/tools/screen.py', opt['--screen']], cwd=HERE, env=dict(os.environ, PSC_REPO=WT), timeout=1800)
                        if c.returncode == 1:
                            rec.update(res='killed', by=c.stdout[:200])
                        props = []
                    for q in props:
                        c = sh(['python3', HERE + '/run.py', q, 'quick'], cwd=HERE, env=dict(os.environ, PSC_REPO=WT, VERIF_SEED='1', VERIF_TIER='quick'), timeout=900)
                        if c.returncode == 1 and 'VIOLATION' in c.stdout:
                            rec['res'] = 'killed'
                            rec['by'] = q
                            kills[(p, q)] = kills.get((p, q), 0) + 1
                            break
                        if c.returncode not in (0, 1):
                            rec.setdefault('odd', []).append((q, c.returncode, (c.stdout + c.stderr)[-300:]))
                    rec['t'] = round(time.time() - t0)
        finally:
            open(full, 'w').write(orig)
        with open(log, 'a') as f:
            f.write(json.dumps(rec) + '\n')


if __name__ == "__main__":
    main()
