"""Exploration engine: enumerates cases, runs every one on the reference model and on the real
interpreter, and compares what each of them did.

A property module provides
    INFO   dict(rule=..., assumptions=[...], flavor={'quick': 'plain', 'thorough': ...})
    cases(tier)  generator of (function, args...) in a fixed order; function(ctx, *args) raises
                 Mismatch if the real interpreter leaves the behaviours the property allows.
The space is split over worker processes by position, so that it is enumerated exactly once.
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
for d in ('harness', 'ref', 'props', 'checks'):
    p = os.path.join(ROOT, d)
    if p not in sys.path:
        sys.path.insert(0, p)

import build as hbuild          # noqa: E402
import client                   # noqa: E402
import psref                    # noqa: E402

sys.setrecursionlimit(20000)

LIMITS = dict(steps=400000, depth=200, cells=200000, max_string=1 << 20)
MODEL_LIMITS = dict(steps=20000, depth=60, cells=20000, max_string=1 << 16)
FLAGS = ('floor_div', 'trunc_real', 'mid_end')


class Mismatch(Exception):
    def __init__(self, what, **info):
        Exception.__init__(self, what)
        self.what, self.info = what, info


def strip_warnings(s):
    return '\n'.join(x for x in s.split('\n') if not x.startswith('Warning on line'))


def norm_out(s):
    """Blank lines before a diagnostic are not part of the program's output."""
    return s.rstrip('\n')


class Exp:
    """What the model says a run must show."""
    __slots__ = ('status', 'out', 'errors', 'files', 'warned', 'touched', 'nsteps', 'model')


class Ctx:
    def __init__(self, server, deadline=None):
        self.server = server
        self.deadline = deadline
        self.runs = 0            # executions of the real interpreter
        self.validated = 0       # of these, compared completely with the model
        self.steps = 0           # statement steps of the model / transitions
        self.states = set()
        self.skipped = {}
        self.log = []
        self.long = 1

    # -- raw execution
    def run(self, prog='', args=('../p',), stdin='', files=(), wipe=True, listing=False, timeout_ms=10000, **kw):
        lim = dict(LIMITS)
        lim.update(kw)
        self.runs += 1
        files = [(t, m or {'f': 0o644, 'd': 0o755}.get(t, 0), n, d) for t, m, n, d in files]
        r = self.server.run(prog, args, stdin, files, wipe, listing, timeout_ms * self.long, **lim)
        self.log.append(dict(prog=prog, args=list(args), stdin=stdin, files=[list(f) for f in files], wipe=wipe,
                             limits={k: (list(v) if isinstance(v, tuple) else v) for k, v in lim.items()},
                             got=dict(kind=r.kind, code=r.code, out=r.out, err=r.err, files=r.files)))
        if len(self.log) > 40:
            del self.log[0]
        return r

    def orderly(self, r, repl=False):
        """The run ended normally or with a diagnostic."""
        if r.kind == 'timeout':
            raise Mismatch('the run does not end (killed by the time limit)')
        if r.kind == 'signal':
            raise Mismatch('the run was ended by signal %d' % r.code)
        if r.code not in (0, 1):
            raise Mismatch('exit status %d\n%s' % (r.code, r.err[:3000]))
        ds = client.parse_diags(r.err)
        if not repl:
            if r.code == 0 and ds:
                raise Mismatch('exit status 0 together with a diagnostic: %r' % (ds,))
            if r.code == 1 and len(ds) != 1:
                raise Mismatch('exit status 1 with %d diagnostics on stderr: %r' % (len(ds), r.err[:500]))
        return ds

    # -- model
    def model(self, src, stdin='', pedantic=False, fs=None, repl=False, **kw):
        """Runs the model; returns Exp, or None when nothing beyond orderly termination is asserted."""
        lim = dict(MODEL_LIMITS)
        lim.update(kw)
        self.over = False
        m = psref.Model(fs=fs, stdin=stdin, pedantic=bool(pedantic), **lim)
        try:
            st = m.run_repl() if repl else m.run_file(src)
        except psref.Unspecified as e:
            self.skip('unspecified: %s' % e)
            return None
        except psref.Budget:
            self.skip('beyond the bounds')
            self.over = True
            return None
        x = Exp()
        x.status, x.out, x.errors, x.files = st, m.out, m.errors, m.fs.files
        x.warned, x.touched, x.nsteps, x.model = m.warned, m.touched, m.nsteps, m
        return x

    def skip(self, why):
        why = why[:60]
        self.skipped[why] = self.skipped.get(why, 0) + 1

    # -- comparison
    def compare(self, x, r, lines=False, files=True, repl=False):
        """Mismatch text, or None."""
        ds = self.orderly(r, repl)
        if r.code != x.status:
            return 'exit status %d, expected %d (%s)' % (r.code, x.status, x.errors or 'normal end')
        if len(ds) != len(x.errors):
            return '%d diagnostics, expected %d: %r / %r' % (len(ds), len(x.errors), ds, x.errors)
        for d, (kind, line, chain) in zip(ds, x.errors):
            if d.kind != kind:
                return 'a %s error, expected a %s error (%r)' % (d.kind, kind, (line, chain))
            if lines:
                e = check_lines(d, kind, line, chain)
                if e:
                    return e
        a, b = x.out, r.out
        if x.warned:
            b = strip_warnings(b)
        if a != b:
            a, b = _NEGZERO.sub('0.0', a), _NEGZERO.sub('0.0', b)   # the sign of a zero is not fixed
        if a != b:
            if not (x.status or repl) or norm_out(a) != norm_out(b):
                if not (repl and x.errors and squeeze(a) == squeeze(b)):
                    return show_diff(b, a)
        if files:
            for name, c in x.files.items():
                if '/' in name:
                    continue        # subdirectories are not listed
                got = r.files.get(name)
                if got is None:
                    return 'file %r is missing' % name
                if isinstance(c, str) and got != c:
                    return 'file %r holds %r, expected %r' % (name, clip(got), clip(c))
            for name in r.files:
                if name not in x.files and r.files[name][:1] != '<':
                    return 'unexpected file %r' % name
        return None

    def diff(self, src, stdin='', pedantic=False, files=(), fs=None, lines=False, check_files=None, repl=False, wipe=True,
             model_kw=None, **kw):
        """One run on both sides. fs: factory or dict of the initial files (defaults to the regular files of `files`)."""
        def mkfs():
            if callable(fs):
                return fs()
            return psref.FS({n: d for t, m, n, d in files if t == 'f'} if fs is None else fs)
        mk = dict(model_kw or {})
        x = self.model(src, stdin, pedantic, mkfs(), repl, **mk)
        args = (() if repl else ('../p',))
        if pedantic:
            args = (pedantic if isinstance(pedantic, str) else '--pedantic',) + args
        if x is None and self.over:
            # only orderly termination is checked: stop soon
            kw = dict(dict(steps=25000, depth=80, cells=30000, max_string=1 << 17), **kw)
        listing = bool(files) or (check_files if check_files is not None else 'OPENFILE' in (stdin if repl else src))
        r = self.run(src, args, stdin, files, wipe=wipe, listing=listing, **kw)
        if x is None:
            self.orderly(r, repl)
            return None, r
        err = self.compare(x, r, lines, listing, repl)
        if err and x.touched:
            alts = [f for f in FLAGS if f in x.touched]
            for mask in range(1, 1 << len(alts)):
                y = self.model(src, stdin, pedantic, mkfs(), repl,
                               **dict(mk, **{f: True for i, f in enumerate(alts) if mask >> i & 1}))
                if y is None:
                    continue
                e2 = self.compare(y, r, lines, listing, repl)
                if e2 is None:
                    x, err = y, None
                    break
        if err:
            raise Mismatch(err)
        self.validated += 1
        self.steps += x.nsteps
        self.states.add(hash((x.status, x.out, tuple(e[0] for e in x.errors), str(sorted(x.files.items(), key=lambda t: t[0])))))
        return x, r

    def repl(self, stdin, **kw):
        return self.diff('', stdin, repl=True, **kw)

    def observe(self, key):
        """Counts a distinct state (any hashable)."""
        self.states.add(hash(key))


def check_lines(d, kind, line, chain):
    if kind == 'runtime':
        # a built-in has no line of its own
        exp = [l for _, l in chain]
        got = [l for _, l in d.frames]
        while exp and exp[0] is None:
            exp = exp[1:]
            got = got[1:]
        if got != exp:
            return 'traceback lines %r, expected %r' % (d.frames, chain)
    elif line is not None and d.line != line:
        return '%s error at line %r, expected %r' % (kind, d.line, line)
    return None


def squeeze(s):
    while '\n\n' in s:
        s = s.replace('\n\n', '\n')
    return s.strip('\n')


_NEGZERO = re.compile(r'(?<![0-9.])-0\.0(?![0-9])')


def show_diff(got, exp):
    i = 0
    while i < len(got) and i < len(exp) and got[i] == exp[i]:
        i += 1
    i = max(0, got.rfind('\n', 0, i - 1 if i else 0) + 1)
    i = max(i, 0)
    return 'stdout differs at %d: %r, expected %r' % (i, got[i:i + 300], exp[i:i + 300])


def clip(s, n=700):
    return s if len(s) <= n else s[:n // 2] + '...' + s[-n // 2:]


# ---------------------------------------------------------------- workers

def _worker(k, n, prop, tier, exe, deadline, q, stop):
    try:
        mod = importlib.import_module(prop.lower())
        srv = client.Server(exe)
        ctx = Ctx(srv, deadline)
        ctx.tier = tier
        ctx.prop = prop
        done = 0
        full = True
        samples = []
        nxt = 1
        viol = None
        try:
            for i, case in enumerate(mod.cases(tier)):
                if (i * 2654435761 >> 13) % n != k:
                    continue
                if time.time() > deadline or stop.is_set():
                    full = False
                    break
                ctx.log = []
                try:
                    case[0](ctx, *case[1:])
                except Mismatch as e:
                    # run it again, alone if it was slow, before believing it
                    ctx.long = 6
                    ctx.log = []
                    try:
                        case[0](ctx, *case[1:])
                    except Mismatch as e2:
                        viol = dict(index=i, what=e2.what, info={a: repr(b) for a, b in e2.info.items()}, log=ctx.log,
                                    case=repr(case[1:])[:4000], fn=case[0].__name__)
                        stop.set()
                    ctx.long = 1
                    if viol:
                        break
                done += 1
                if done >= nxt and len(samples) < 12 and ctx.log:
                    l = ctx.log[-1]
                    samples.append(dict(index=i, program=clip(l['prog'], 1500), stdin=clip(l['stdin'], 600), args=l['args'],
                                        result=[l['got']['kind'], l['got']['code'], clip(l['got']['out'], 300),
                                                clip(l['got']['err'], 200)]))
                    nxt = nxt * 3
        finally:
            srv.close()
        q.put(dict(k=k, done=done, full=full, samples=samples, viol=viol, runs=ctx.runs, validated=ctx.validated,
                   steps=ctx.steps, states=ctx.states, skipped=ctx.skipped))
    except BaseException:
        stop.set()
        q.put(dict(k=k, error=traceback.format_exc()))


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            if l.startswith('known: property=%s ' % prop):
                out.append(l[len('known: property=%s ' % prop):].strip())
    except OSError:
        pass
    return out


def main(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    mod = importlib.import_module(prop.lower())
    info = mod.INFO
    flavor = info.get('flavor', {}).get(tier, 'plain')
    try:
        exe = hbuild.build(flavor)
    except hbuild.BuildError as e:
        print('cannot build /repo: %s' % e)
        return 2
    n = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
    limit = info.get('limit', {}).get(tier, 420 if tier == 'quick' else 700)
    if os.environ.get('VERIF_LIMIT'):
        limit = int(os.environ['VERIF_LIMIT'])
    deadline = time.time() + limit
    q, stop = mp.Queue(), mp.Event()
    ws = [mp.Process(target=_worker, args=(k, n, prop, tier, exe, deadline, q, stop)) for k in range(n)]
    for w in ws:
        w.start()
    res = []
    while len(res) < n:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            dead = [w for w in ws if not w.is_alive()]
            if len(dead) > len(res):
                time.sleep(1)
                while not q.empty():
                    res.append(q.get())
                if len([w for w in ws if not w.is_alive()]) > len(res):
                    print('a worker died')
                    stop.set()
                    return 2
    for w in ws:
        w.join()
    for r in res:
        if r.get('error'):
            print('error in the check itself:\n' + r['error'])
            return 2
    res.sort(key=lambda r: r['k'])
    states = set()
    skipped = {}
    samples = []
    for r in res:
        states |= r['states']
        for a, b in r['skipped'].items():
            skipped[a] = skipped.get(a, 0) + b
    for j in range(12):
        for r in res:
            if j < len(r['samples']) and len(samples) < 12:
                samples.append(r['samples'][j])
    viol = [r['viol'] for r in res if r['viol']]
    viol.sort(key=lambda v: v['index'])
    exhaustive = all(r['full'] for r in res) and not viol
    cov = dict(states=len(states), transitions=sum(r['steps'] for r in res),
               traces_validated_against_impl=sum(r['validated'] for r in res),
               cases=sum(r['done'] for r in res), executions_of_the_implementation=sum(r['runs'] for r in res),
               only_orderly_termination_checked=skipped, exhaustive=exhaustive, rule=info['rule'] + ''.join('; ' + getattr(mod, m).RULE for m in ('scale', 'rerun', 'transport', 'merge') if hasattr(mod, m)), samples=samples)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=info.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s %s: %d cases, %d executions, %d validated against the model, %d distinct outcomes, %d steps, %s, %.1f s' % (
        prop, tier, cov['cases'], cov['executions_of_the_implementation'], cov['traces_validated_against_impl'],
        cov['states'], cov['transitions'], 'exhaustive' if exhaustive else 'not exhaustive', ev['wall_s']))
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'replay', '%s-%s.json' % (prop, tier))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, flavor=flavor, **v), f, indent=1)
        print('case %d: %s' % (v['index'], v['what']))
        if v['log']:
            print('--- program\n%s\n--- stdin\n%s' % (v['log'][-1]['prog'][:3000], v['log'][-1]['stdin'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path):
    """Runs the recorded executions of a violation again and shows them."""
    d = json.load(open(path))
    exe = hbuild.build(d['flavor'])
    srv = client.Server(exe)
    for i, l in enumerate(d['log']):
        r = srv.run(l['prog'], tuple(l['args']), l['stdin'], [tuple(f) for f in l['files']], l['wipe'], True, 60000,
                    **{k: (tuple(v) if isinstance(v, list) else v) for k, v in l['limits'].items()})
        print('=== run %d: %s %s\n--- program\n%s\n--- stdin\n%s\n--- stdout\n%s\n--- stderr\n%s' % (
            i, r.kind, r.code, l['prog'], l['stdin'], r.out, r.err))
        for n, c in r.files.items():
            print('--- file %s: %r' % (n, c))
    srv.close()
    print('reported: ' + d['what'])
