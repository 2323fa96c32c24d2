"""Helpers shared by the property modules."""
import itertools

from engine import Mismatch

TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']


def session(entries):
    """stdin of a REPL session: multi-line entries are closed by a blank line."""
    out = []
    for e in entries:
        out.append(e)
        if '\n' in e:
            out.append('')
    return '\n'.join(out) + '\n'


def batch(ctx, prelude, entries, observe=(), **kw):
    """Runs prelude, then every entry followed by the observations, in one REPL session.
    Splits the session when the model cannot predict it, and narrows a mismatch down."""
    entries = list(entries)
    if not entries:
        return

    def go(part):
        l = list(prelude)
        for e in part:
            if isinstance(e, (list, tuple)):
                l += e
            else:
                l.append(e)
            l += observe
        return ctx.repl(session(l), **kw)

    try:
        x, r = go(entries)
    except Mismatch as e:
        full = list(ctx.log)
        if len(entries) > 1:
            for p in entries:
                go([p])
            lo, hi = 1, len(entries)    # shortest failing prefix
            while lo < hi:
                k = (lo + hi) // 2
                try:
                    go(entries[:k])
                    lo = k + 1
                except Mismatch:
                    hi = k
            go(entries[:lo])
        ctx.log = full
        raise e
    if x is None and len(entries) > 1:
        k = len(entries) // 2
        batch(ctx, prelude, entries[:k], observe, **kw)
        batch(ctx, prelude, entries[k:], observe, **kw)


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def batches(prelude, entries, n, observe=(), **kw):
    """Cases that run the entries in sessions of n."""
    for c in chunks(entries, n):
        yield (_batch, prelude, c, observe, kw)


def _batch(ctx, prelude, c, observe, kw):
    batch(ctx, prelude, c, observe, **kw)


def prog(ctx, src, kw=None):
    ctx.diff(src, **(kw or {}))


def lit(s):
    """A string expression with the given value, written with printable or high characters only."""
    out, cur = [], ''
    for c in s:
        if c in '\r\0' or (c < ' ' and c not in '\n\t') or c == '\x7f':
            if cur:
                out.append('"%s"' % cur)
            out.append('CHR(%d)' % ord(c))
            cur = ''
        else:
            cur += {'\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}.get(c, c)
    if cur or not out:
        out.append('"%s"' % cur)
    if len(out) == 1 and out[0][0] == 'C':
        out.append('""')
    return ' & '.join(out)


def chain(ctx, runs, fs=None, **kw):
    """Runs one after the other in the same directory; a run is a program, or a list of REPL entries,
    or a dict of arguments.  Stops where the model cannot predict the files any more."""
    files = fs
    out = []
    for k, r in enumerate(runs):
        a = dict(kw)
        if isinstance(r, dict):
            a.update(r)
        elif isinstance(r, list):
            a.update(src='', stdin=session(r), repl=True)
        else:
            a.update(src=r)
        src = a.pop('src', '')
        if k:
            a.update(wipe=False)
        if files is not None:
            a['fs'] = (lambda d: lambda: __import__('psref').FS(d))(dict(files))
        a.setdefault('check_files', True)
        x, res = ctx.diff(src, **a)
        out.append((x, res))
        if x is None:
            break
        files = x.files
    return out
