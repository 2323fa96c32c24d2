"""C16: file statements obey the handle state machine and never lose data silently."""
import itertools
from collections import deque

import psref
from engine import Mismatch
from gen import chain, chunks, session
import merge
import rerun
import scale

INFO = dict(
    rule='an explicit machine over two file names (missing / text / random contents x closed / READ / WRITE / APPEND / RANDOM x position) generates every history of legal file statements up '
         'to the depth and the shortest history to every state followed by every operation; in the REPL every illegal statement is tried at every point, in file mode every history is ended by '
         'every illegal statement, by another runtime error and by the end of the program; every failing open (missing directory, directory, file as directory, unreadable, unwritable, name '
         'limits, symbolic link loops, file removed between runs) x mode; every rejected write (/dev/full, size limit) x way of ending; files compared byte by byte with the reference model, '
         'random files read back by a fresh process',
    assumptions=['READFILE past the last line, text access to a random file and writing after a rejected write are not asserted'])

PRE = ['TYPE R\nDECLARE n : INTEGER\nENDTYPE', 'DECLARE s, t : STRING', 'DECLARE i, j : INTEGER', 'i <- 5']
NAMES = ['a', 'b']


def fn(f):
    return '"%s"' % NAMES[f]


def stmts(op, k):
    o, f = op[0], op[1]
    n = fn(f)
    if o == 'O':
        return ['OPENFILE %s FOR %s' % (n, op[2])]
    if o == 'C':
        return ['CLOSEFILE ' + n]
    if o == 'R':
        return ['READFILE %s, t' % n, 'OUTPUT "<", t, ">"']
    if o == 'E':
        return ['OUTPUT EOF(%s)' % n]
    if o == 'W':
        return ['WRITEFILE %s, "w%d"' % (n, k)]
    if o == 'S':
        return ['SEEK %s, %d' % (n, op[2])]
    if o == 'P':
        return ['i <- %d' % (100 + k), 'PUTRECORD %s, i' % n]
    return ['j <- 0', 'GETRECORD %s, j' % n, 'OUTPUT j']


# per file: (kind None/'T'/'X', number of lines or records, mode or None, position)
def legal(st):
    for f, (kind, num, mode, pos) in enumerate(st):
        if mode is None:
            yield ('O', f, 'WRITE')
            if kind == 'T':
                yield ('O', f, 'READ')
                yield ('O', f, 'APPEND')
            if kind != 'T':
                yield ('O', f, 'RANDOM')
            continue
        yield ('C', f)
        if mode == 'READ':
            yield ('E', f)
            if pos < num:
                yield ('R', f)
        elif mode in ('WRITE', 'APPEND'):
            if num < 4:
                yield ('W', f)
        else:
            if pos != 0:
                yield ('S', f, 1)
            if pos != num:
                yield ('S', f, num + 1)
            if pos < num or num < 3:
                yield ('P', f)
            if pos < num:
                yield ('G', f)


def apply(st, op):
    f = op[1]
    kind, num, mode, pos = st[f]
    o = op[0]
    if o == 'O':
        mode, pos = op[2], 0
        if mode == 'WRITE':
            kind, num = 'T', 0
        elif mode == 'RANDOM' and kind is None:
            kind, num = 'X', 0
    elif o == 'C':
        mode, pos = None, 0
    elif o == 'R':
        pos += 1
    elif o == 'W':
        num += 1
    elif o == 'S':
        pos = op[2] - 1
    elif o == 'P':
        num = max(num, pos + 1)
    return st[:f] + ((kind, num, mode, pos),) + st[f + 1:]


def illegal(st):
    out = []
    for f, (kind, num, mode, pos) in enumerate(st):
        n = fn(f)
        al = []
        if mode is not None:
            al += ['OPENFILE %s FOR %s' % (n, m) for m in ('READ', 'WRITE', 'APPEND', 'RANDOM')]
        elif kind is None:
            al += ['OPENFILE %s FOR READ' % n, 'OPENFILE %s FOR APPEND' % n]
        if mode != 'READ':
            al += ['READFILE %s, s' % n, 'EOF(%s)' % n]
        else:
            al += ['READFILE %s, i' % n]
        if mode not in ('WRITE', 'APPEND'):
            al += ['WRITEFILE %s, "bad"' % n]
        else:
            al += ['WRITEFILE %s, 1 / 0' % n, 'WRITEFILE %s, nosuch' % n]
        if mode != 'RANDOM':
            al += ['SEEK %s, 1' % n, 'GETRECORD %s, i' % n, 'PUTRECORD %s, i' % n]
        else:
            al += ['SEEK %s, %d' % (n, num + 2), 'SEEK %s, 0' % n, 'PUTRECORD %s, nosuch' % n, 'GETRECORD %s, s' % n]
            if pos == num:
                al += ['GETRECORD %s, i' % n]
        if mode is None:
            al += ['CLOSEFILE ' + n]
        out += al
    return out + ['OPENFILE 5 FOR WRITE', 'CLOSEFILE TRUE', 'CLOSEFILE "c"', 'OPENFILE "" FOR WRITE', 'WRITEFILE "A", 1']


TEXTS = {'none': None, 'text': 'x1\nx2\n', 'part': 'p1\np2', 'empty': ''}


def start(init):
    return tuple(((None, 0, None, 0) if TEXTS[k] is None else ('T', {'text': 2, 'part': 2, 'empty': 0}[k], None, 0)) for k in init)


def initial(init):
    return [('f', 0o666, NAMES[f], TEXTS[k]) for f, k in enumerate(init) if TEXTS[k] is not None]


def check(st):
    out = list(PRE)
    for f, (kind, num, mode, pos) in enumerate(st):
        n = fn(f)
        if kind is None:
            out += ['OPENFILE %s FOR READ' % n]
        elif kind == 'X':
            out += ['OPENFILE %s FOR RANDOM' % n]
            for k in range(num):
                out += ['SEEK %s, %d' % (n, k + 1), 'GETRECORD %s, j' % n, 'OUTPUT j']
            out += ['SEEK %s, %d' % (n, num + 2)]
        else:
            out += ['OPENFILE %s FOR READ' % n] + ['READFILE %s, t' % n, 'OUTPUT t'] * num + ['OUTPUT EOF(%s)' % n]
    return out


def history(ctx, init, ops, mode, last=None):
    st = start(init)
    cur = list(PRE)
    for k, op in enumerate(ops):
        if mode == 'repl':
            cur += illegal(st)
        cur += stmts(op, k)
        st = apply(st, op)
        ctx.observe(st)
    if mode == 'repl':
        run = cur + illegal(st)
        if last:
            run.append(last)
    else:
        body = cur[len(PRE):] + ([last] if last else [])
        if mode == 'proc':
            body = ['PROCEDURE go()'] + body + ['ENDPROCEDURE', 'OUTPUT "m"', 'CALL go', 'OUTPUT "e"']
        elif mode == 'loop':
            body = ['FOR z <- 1 TO 2', 'IF z = 1 THEN'] + body + ['ELSE', 'OUTPUT 1 / 0', 'ENDIF', 'NEXT z']
        run = '\n'.join(PRE + body) + '\n'
    d = dict(src='', stdin=session(run), repl=True) if isinstance(run, list) else dict(src=run)
    o = chain(ctx, [dict(d, files=initial(init)), check(st)])
    if len(o) < 2 or o[1][0] is None:
        raise AssertionError('the model does not predict %r %r %r' % (init, ops, last))


def ended(ctx, init, ops, mode):
    """The history ended by each illegal statement, by other errors, and by the end of the program."""
    st = start(init)
    for op in ops:
        st = apply(st, op)
    for l in illegal(st) + ['OUTPUT 1 / 0', 'OUTPUT nosuch', 'CALL nosuch', 'i <- "x"', 'BREAK', None]:
        history(ctx, init, ops, mode, l)


def sequences(st, depth):
    if depth == 0:
        yield []
        return
    for op in legal(st):
        for rest in sequences(apply(st, op), depth - 1):
            yield [op] + rest


def graph(init):
    st = start(init)
    seen = {st: []}
    q = deque([st])
    while q:
        s = q.popleft()
        for op in legal(s):
            nx = apply(s, op)
            yield seen[s] + [op]
            if nx not in seen:
                seen[nx] = seen[s] + [op]
                q.append(nx)


# ---- faults
def opens(ctx, path, mode, ok, files, fs, before, repl):
    """Opening `path` while other files are open. ok: whether it may succeed."""
    q = '"%s"' % path
    use = {'READ': ['OUTPUT EOF(%s)' % q], 'WRITE': ['WRITEFILE %s, "n"' % q], 'APPEND': ['WRITEFILE %s, "n"' % q], 'RANDOM': ['i <- 8', 'PUTRECORD %s, i' % q]}[mode]
    ops = ['DECLARE i, j : INTEGER', 'DECLARE s : STRING', 'OPENFILE "o1" FOR WRITE', 'WRITEFILE "o1", "one"', 'OPENFILE "o2" FOR RANDOM', 'i <- 3', 'PUTRECORD "o2", i']
    ops += ['OPENFILE %s FOR %s' % (q, mode)]
    if repl:
        ops += ['OPENFILE %s FOR %s' % (q, m) for m in (('READ', 'WRITE', 'APPEND', 'RANDOM') if path != 'ro' else (mode, mode)) if not ok]
        ops += use + ['CLOSEFILE ' + q]
        ops += ['WRITEFILE "o1", "two"', 'SEEK "o2", 2', 'PUTRECORD "o2", i', 'SEEK "o2", 1', 'GETRECORD "o2", j', 'OUTPUT j']
        chain(ctx, [dict(src='', stdin=session(ops), repl=True, files=files, fs=fs)])
    else:
        ops += ['OUTPUT "opened"'] + use
        chain(ctx, [dict(src='\n'.join(ops) + '\n', files=files, fs=fs)])


def bad_paths():
    F = [('f', 0o666, 'plain', 'p\n'), ('d', 0o777, 'dir', '')]
    base = {'plain': 'p\n'}
    for m in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
        for p in ('nodir/f', 'nodir/sub/f', 'dir', 'dir/', 'plain/x', 'plain/', '', 'x' * 256, 'x' * 300, 'dir/no/f', 'x' * 5000):
            yield p, m, False, F, lambda: psref.FS(dict(base), dirs=['dir'])
        if m in ('READ', 'APPEND'):
            for p in ('missing', 'dir/missing', 'Plain', 'plain ', ' plain', 'x' * 255):
                yield p, m, False, F, lambda: psref.FS(dict(base), dirs=['dir'])
        if m != 'RANDOM':
            yield 'plain', m, True, F, lambda: psref.FS(dict(base), dirs=['dir'])
        if m in ('WRITE', 'RANDOM'):
            for p in ('new', 'dir/new', 'x' * 255, 'sp ace', 'tab#"\''.replace('"', '')):
                yield p, m, True, F, lambda: psref.FS(dict(base), dirs=['dir'])
        # permissions
        if m in ('READ', 'RANDOM'):
            yield 'secret', m, False, F + [('f', 0o200, 'secret', 's\n')], lambda: psref.FS(dict(base, secret='s\n'), dirs=['dir'], noread=['secret'])
        if m in ('WRITE', 'APPEND'):
            yield 'ro', m, False, F + [('f', 0o444, 'ro', 's\n')], lambda: psref.FS(dict(base, ro='s\n'), dirs=['dir'], nowrite=['ro'])
            yield 'none', m, False, F + [('f', 0o1, 'none', 's\n')], lambda: psref.FS(dict(base, none='s\n'), dirs=['dir'], nowrite=['none'], noread=['none'])


UNTOUCHED = ['', 'SEEK %s, 1', 'SEEK %s, 0', 'SEEK %s, 9', 'GETRECORD %s, i', 'GETRECORD %s, s', 'GETRECORD %s, r', 'GETRECORD %s, nosuch', 'PUTRECORD %s, nosuch', 'SEEK %s, "x"', 'READFILE %s, s', 'WRITEFILE %s, "x"', 'EOF(%s)', 'OPENFILE %s FOR WRITE', 'OPENFILE %s FOR APPEND']
UREAD = ['', 'EOF(%s)', 'READFILE %s, s', 'READFILE %s, i', 'READFILE %s, nosuch[1]', 'WRITEFILE %s, "x"', 'PUTRECORD %s, i', 'SEEK %s, 1', 'OPENFILE %s FOR WRITE', 'OPENFILE %s FOR RANDOM']
UAPPEND = ['', 'WRITEFILE %s, 1 / 0', 'WRITEFILE %s, nosuch', 'READFILE %s, s', 'EOF(%s)', 'SEEK %s, 1', 'PUTRECORD %s, i', 'OPENFILE %s FOR WRITE', 'OPENFILE %s FOR RANDOM', 'WRITEFILE %s, ar']


def untouched(ctx, conts, mode, ops, close):
    """Files of any contents, opened but never written: the bytes stay."""
    es = list(PRE) + ['DECLARE r : R', 'DECLARE ar : ARRAY[1:2] OF INTEGER']
    for k, c in enumerate(conts):
        n = '"u%d"' % k
        es += ['OPENFILE %s FOR %s' % (n, mode)] + [o % n if '%' in o else o for o in ops if o] + (['CLOSEFILE ' + n] if close else [])
    files = [('f', 0o666, 'u%d' % k, c) for k, c in enumerate(conts)]
    if close == 'error':
        es += ['OPENFILE "nofile" FOR READ']
    r = ctx.run('', (), session(es), files, listing=True)
    ctx.orderly(r, True)
    for k, c in enumerate(conts):
        if r.files.get('u%d' % k) != c:
            raise Mismatch('a file opened FOR %s that no statement wrote to (%s) holds %r, it was %r' % (mode, ops, r.files.get('u%d' % k), c))
    ctx.validated += 1
    ctx.steps += len(es)
    ctx.observe((mode, tuple(ops), close, r.err))


def contents(n):
    for k in range(n + 1):
        for t in itertools.product('\na\r\0 ', repeat=k):
            yield ''.join(t)
    for c in ('INTEGER 5\n', 'INTEGER 5', 'INTEGER 5\n\n', '\nINTEGER 5\n', 'INTEGER 5\nSTRING 2\n', 'STRING 1 a\n', 'INTEGER 5\r\n', 'x' * 5000, ('y' * 99 + '\n') * 60, '\n' * 3000, '\xff\xfe\n', 'INTEGER 5 \n', ' INTEGER 5\n', 'CHAR a\nCHAR b\n\n'):
        yield c


def unwritten(tier):
    n = 3 if tier == 'quick' else 4
    for mode, ops in (('RANDOM', UNTOUCHED), ('READ', UREAD), ('APPEND', UAPPEND)):
        for k in (1, 2) if tier == 'quick' else (1, 2, 3):
            for t in itertools.product(ops, repeat=k):
                if k > 1 and '' in t:
                    continue
                for c in chunks(contents(n if k < 3 else 2), 50):
                    for close in (True, False):
                        yield (untouched, c, mode, list(t), close)


def links(ctx, mode, kind):
    """Symbolic links that cannot be opened."""
    path, target = {'loop': ('l1', 'l1'), 'nodir': ('l1', 'nodir/f'), 'dir': ('l1', 'dir')}[kind]
    files = [('d', 0o777, 'dir', ''), ('l', 0, path, target)]
    ops = ['OPENFILE "o1" FOR WRITE', 'WRITEFILE "o1", "one"', 'OPENFILE "l1" FOR %s' % mode, 'OUTPUT "opened"']
    r = ctx.run('\n'.join(ops) + '\n', files=files, listing=True)
    ds = ctx.orderly(r)
    if r.code != 1 or ds[0].kind != 'runtime' or 'opened' in r.out:
        raise Mismatch('OPENFILE FOR %s of a link that cannot be followed (%s) was not reported' % (mode, kind))
    if r.files.get('o1') != 'one\n':
        raise Mismatch('another file lost its contents: %r' % (r.files,))
    ctx.validated += 1
    ctx.steps += 4


def unwritable_dir(ctx, mode):
    """New files in a directory without write permission."""
    ops = 'OUTPUT "s"\nOPENFILE "fresh" FOR %s\nOUTPUT "opened"\n' % mode
    r = ctx.run(ops, files=[('w', 0o555, '', '')], listing=True)
    ds = ctx.orderly(r)
    if r.code != 1 or ds[0].kind != 'runtime' or 'opened' in r.out:
        raise Mismatch('OPENFILE FOR %s that cannot create the file was not reported' % mode)
    ctx.validated += 1
    ctx.steps += 2


WR = ['"x"', '""', '5', 'big', 'TRUE']


def rejected(ctx, mode, vals, ending, how, where):
    """Writes the operating system rejects must be reported; other files keep their data.
    how: full (/dev/full), limit (file size limit)."""
    src = 'DECLARE big : STRING\nbig <- "0123456789"\nFOR i <- 1 TO 8\nbig <- big & big\nNEXT i\nOPENFILE "o1" FOR WRITE\nWRITEFILE "o1", "one"\n'
    kw = {}
    files = []
    if how == 'full':
        files = [('l', 0, 'full', '/dev/full')]
    else:
        kw = dict(fsize=1024)
        if mode == 'APPEND':
            files = [('f', 0o666, 'full', 'x' * 1020 + '\n')]
    body = 'OPENFILE "full" FOR %s\n' % mode
    for k, v in enumerate(vals):
        if mode == 'RANDOM':
            body += 'y%d <- %s\nPUTRECORD "full", y%d\nSEEK "full", %d\n' % (k, v, k, k + 2)
        else:
            body += 'WRITEFILE "full", %s\n' % v
    if ending == 'close':
        body += 'CLOSEFILE "full"\n'
    if where == 'proc':
        body = 'PROCEDURE go()\n' + body + 'ENDPROCEDURE\nCALL go\n'
    body += 'OUTPUT "end"\n'
    if ending == 'error':
        body += 'OUTPUT 1 / 0\n'
    if where == 'repl':
        r = ctx.run('', args=(), stdin=session(['DECLARE big : STRING', 'big <- "0123456789"', 'FOR i <- 1 TO 8\nbig <- big & big\nNEXT i', 'OPENFILE "o1" FOR WRITE', 'WRITEFILE "o1", "one"'] + body.strip('\n').split('\n')), files=files, listing=True, **kw)
        if r.kind != 'exit' or r.code not in (0, 1):
            raise Mismatch('the session ended with %s %s' % (r.kind, r.code))
        if ending != 'error' and not r.err.strip():
            raise Mismatch('a write rejected by the system was not reported')
        if ending == 'error' and r.err.count('rror') < 2:
            raise Mismatch('a write rejected by the system was not reported')
    else:
        r = ctx.run(src + body, files=files, listing=True, **kw)
        if r.kind != 'exit' or r.code not in (0, 1):
            raise Mismatch('the run ended with %s %s' % (r.kind, r.code))
        if not r.err.strip():
            raise Mismatch('a write rejected by the system was not reported')
        if r.code != 1:
            raise Mismatch('exit status 0 although a write was rejected')
    if r.files.get('o1') != 'one\n':
        raise Mismatch('another file lost its contents: %r' % r.files.get('o1'))
    ctx.validated += 1
    ctx.steps += len(vals) + 4
    ctx.observe((mode, tuple(vals), ending, how, where, r.code))


def accepted(ctx, mode, n):
    """The same limits, not exceeded."""
    src = 'OPENFILE "f" FOR %s\n' % mode
    if mode == 'RANDOM':
        src += 's <- "0123456789"\n' + ''.join('PUTRECORD "f", s\nSEEK "f", %d\n' % (k + 2) for k in range(n))
    else:
        src += 'WRITEFILE "f", "0123456789"\n' * n
    chain(ctx, [dict(src=src + 'OUTPUT "end"\n', fsize=4096)])


def removed(ctx, mode1, mode2, what):
    """The file disappears (or becomes a directory) between two runs."""
    w = {'WRITE': 'WRITEFILE "f", "x"\n', 'RANDOM': 'i <- 4\nPUTRECORD "f", i\n'}[mode1]
    r = ctx.run('OPENFILE "f" FOR %s\n%sCLOSEFILE "f"\n' % (mode1, w), listing=True)
    ctx.orderly(r)
    if r.code != 0 or 'f' not in r.files:
        raise Mismatch('the file was not written')
    files = [('u', 0, 'f', '')] + ([('d', 0o777, 'f', '')] if what == 'dir' else [])
    fs = psref.FS({}, dirs=['f'] if what == 'dir' else [])
    ctx.diff('OUTPUT "s"\nOPENFILE "f" FOR %s\nOUTPUT "opened"\n' % mode2, files=files, fs=lambda: psref.FS({}, dirs=list(fs.dirs)), wipe=False, check_files=True)


def many(ctx, n, ending, order):
    """n handles in use at once, in several modes."""
    src = 'DECLARE k : INTEGER\nDECLARE l : STRING\n'
    modes = ['WRITE', 'RANDOM', 'APPEND', 'READ']
    files = []
    for i in range(n):
        m = modes[i % 4]
        if m in ('APPEND', 'READ'):
            files.append(('f', 0o666, 'h%d' % i, 'old%d\n' % i))
        src += 'OPENFILE "h%d" FOR %s\n' % (i, m)
    ix = {'up': list(range(n)), 'down': list(range(n))[::-1], 'mid': [(i * 7) % n for i in range(n)]}[order]
    for rnd in range(2):
        for i in ix:
            m = modes[i % 4]
            if m in ('WRITE', 'APPEND'):
                src += 'WRITEFILE "h%d", "%d.%d"\n' % (i, rnd, i)
            elif m == 'RANDOM':
                src += 'k <- %d\nSEEK "h%d", %d\nPUTRECORD "h%d", k\n' % (i * 10 + rnd, i, rnd + 1, i)
            elif rnd == 0:
                src += 'READFILE "h%d", l\nOUTPUT l, EOF("h%d")\n' % (i, i)
    if ending == 'close':
        src += ''.join('CLOSEFILE "h%d"\n' % i for i in ix)
    elif ending == 'some':
        src += ''.join('CLOSEFILE "h%d"\n' % i for i in ix[::2])
        src += 'CLOSEFILE "h%d"\n' % ix[0]
    elif ending == 'error':
        src += 'CLOSEFILE "h%d"\nOUTPUT 1 / 0\n' % ix[-1]
    rd = 'DECLARE k : INTEGER\n' + ''.join('OPENFILE "h%d" FOR RANDOM\nGETRECORD "h%d", k\nOUTPUT k\nSEEK "h%d", 2\nGETRECORD "h%d", k\nOUTPUT k\n' % (i, i, i, i) for i in range(n) if i % 4 == 1)
    chain(ctx, [dict(src=src, files=files), rd], model_kw=dict(steps=50000))


def argforms(ctx, e):
    """File names given by every kind of expression, evaluated once."""
    src = 'FUNCTION nm(k : INTEGER) RETURNS STRING\nOUTPUT "nm", k\nRETURN "n" & NUM_TO_STR(k)\nENDFUNCTION\nDECLARE n : STRING\nn <- "n1"\nCONSTANT K = "n1"\nDECLARE ar : ARRAY[1:1] OF STRING\nar[1] <- n\nDECLARE x : INTEGER\nDECLARE l : STRING\n'
    src += 'OPENFILE %s FOR WRITE\nWRITEFILE %s, %s\nCLOSEFILE %s\nOPENFILE %s FOR READ\nOUTPUT EOF(%s)\nREADFILE %s, l\nOUTPUT l\nCLOSEFILE %s\nOPENFILE "r" & %s FOR RANDOM\nSEEK "r" & %s, 1\nx <- 4\nPUTRECORD "r" & %s, x\nGETRECORD "r" & %s, x\nOUTPUT x\nCLOSEFILE "r" & %s\n' % ((e,) * 13)
    ctx.diff(src, check_files=True)


def evil(ctx, src):
    """Expressions of a file statement that themselves change the handle."""
    chain(ctx, [dict(src=src, files=[('f', 0o666, 'in', 'l1\nl2\n')])])


EVIL = ['FUNCTION f() RETURNS STRING\nCLOSEFILE "a"\nRETURN "x"\nENDFUNCTION\nOPENFILE "a" FOR WRITE\nWRITEFILE "a", "1"\nWRITEFILE "a", f()\n',
        'FUNCTION f() RETURNS STRING\nWRITEFILE "a", "inner"\nRETURN "outer"\nENDFUNCTION\nOPENFILE "a" FOR WRITE\nWRITEFILE "a", f()\nCLOSEFILE "a"\n',
        'FUNCTION f() RETURNS STRING\nOPENFILE "a" FOR WRITE\nRETURN "a"\nENDFUNCTION\nWRITEFILE f(), "v"\n',
        'FUNCTION f() RETURNS STRING\nOPENFILE "a" FOR WRITE\nRETURN "a"\nENDFUNCTION\nOPENFILE f() FOR WRITE\n',
        'FUNCTION f() RETURNS STRING\nCLOSEFILE "a"\nOPENFILE "a" FOR APPEND\nRETURN "v"\nENDFUNCTION\nOPENFILE "a" FOR WRITE\nWRITEFILE "a", "1"\nWRITEFILE "a", f()\nWRITEFILE "a", f()\n',
        'FUNCTION f() RETURNS STRING\nCLOSEFILE "a"\nOPENFILE "a" FOR READ\nRETURN "v"\nENDFUNCTION\nOPENFILE "a" FOR WRITE\nWRITEFILE "a", "1"\nWRITEFILE "a", f()\n',
        'FUNCTION f() RETURNS INTEGER\nDECLARE q : INTEGER\nCLOSEFILE "r"\nOPENFILE "r" FOR RANDOM\nRETURN 1\nENDFUNCTION\nx <- 3\nOPENFILE "r" FOR RANDOM\nPUTRECORD "r", x\nSEEK "r", f()\nGETRECORD "r", x\nOUTPUT x\nSEEK "r", 2\nPUTRECORD "r", x\n',
        'FUNCTION f() RETURNS BOOLEAN\nDECLARE l : STRING\nREADFILE "in", l\nOUTPUT l\nRETURN TRUE\nENDFUNCTION\nOPENFILE "in" FOR READ\nWHILE f() AND NOT EOF("in") DO\nOUTPUT "w"\nENDWHILE\n',
        'FUNCTION f() RETURNS STRING\nCLOSEFILE "in"\nRETURN "in"\nENDFUNCTION\nOPENFILE "in" FOR READ\nREADFILE f(), l\n',
        'FUNCTION f() RETURNS STRING\nRETURN 1 / 0\nENDFUNCTION\nOPENFILE "a" FOR WRITE\nWRITEFILE "a", "kept"\nWRITEFILE "a", f()\n',
        'PROCEDURE p(n : INTEGER)\nIF n > 0 THEN\nWRITEFILE "a", n\nCALL p(n - 1)\nELSE\nOUTPUT 1 DIV 0\nENDIF\nENDPROCEDURE\nOPENFILE "a" FOR WRITE\nCALL p(5)\n',
        'OPENFILE "a" FOR WRITE\nWRITEFILE "a", "1"\nOPENFILE "b" FOR WRITE\nWRITEFILE "b", "2"\nCLOSEFILE "a"\nWRITEFILE "b", "3"\nOPENFILE "a" FOR APPEND\nWRITEFILE "a", "4"\nCLOSEFILE "b"\nWRITEFILE "a", "5"\nOPENFILE "b" FOR READ\nREADFILE "b", l\nOUTPUT l\nREADFILE "b", l\nOUTPUT l, EOF("b")\nWRITEFILE "a", l\n']


def cases(tier):
    yield from scale.cases(tier, 'C16')
    yield from rerun.cases(tier, 'C16')
    yield from merge.cases(tier, 'C16')
    quick = tier == 'quick'
    yield from unwritten(tier)
    for s in EVIL:
        yield (evil, s)
    for e in ['"n1"', 'n', 'K', 'ar[1]', 'nm(1)', '"n" & "1"', "'n' & '1'", 'LEFT("n12", 2)', '(n)', 'TO_LOWER("N1")', '"n" & 1']:
        yield (argforms, e)
    for c in bad_paths():
        for repl in (False, True):
            yield (opens,) + c + (True, repl)
    for m in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
        for k in ('loop', 'nodir', 'dir'):
            yield (links, m, k)
        for m1 in ('WRITE', 'RANDOM'):
            for w in ('gone', 'dir'):
                yield (removed, m1, m, w)
    for m in ('WRITE', 'RANDOM'):
        yield (unwritable_dir, m)
    for ending in ('close', 'exit', 'error'):
        for where in ('main', 'proc', 'repl'):
            for m in ('WRITE', 'APPEND', 'RANDOM'):
                for how in ('full', 'limit'):
                    if how == 'full':
                        if m != 'RANDOM':
                            for v in itertools.product(WR, repeat=1):
                                yield (rejected, m, v, ending, how, where)
                            for v in itertools.product(WR[:3], repeat=2):
                                yield (rejected, m, v, ending, how, where)
                    else:
                        for v in (('big',), ('"x"', 'big'), ('"x"', '"y"', 'big', '"z"')):
                            yield (rejected, m, v, ending, how, where)
    for m in ('WRITE', 'RANDOM'):
        for n in (0, 1, 5, 100):
            yield (accepted, m, n)
    for n in (1, 2, 3, 4, 5, 8, 13, 40):
        for e in ('close', 'exit', 'some', 'error'):
            for o in ('up', 'down', 'mid'):
                yield (many, n, e, o)
    inits = [('none', 'text'), ('none', 'none'), ('part', 'empty')]
    for init in inits:
        g = list(graph(init))
        for h in g[::1 if not quick else 3]:
            yield (history, init, h, 'repl')
        for h in g:
            yield (history, init, h, ('main', 'proc', 'loop')[len(h) % 3])
    for init in inits:
        for h in sequences(start(init), 3 if quick else 4):
            yield (ended, init, h, 'main')
        for k in range(1, 3):
            for h in sequences(start(init), k):
                for m in ('main', 'proc', 'loop'):
                    yield (ended, init, h, m)
        for h in sequences(start(init), 4 if quick else 5):
            yield (history, init, h, 'repl')
        for h in sequences(start(init), 5 if quick else 6):
            yield (history, init, h, 'main')
