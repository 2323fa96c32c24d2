"""C15: text files return exactly the lines that were written, and EOF is exact."""
import itertools

from engine import Mismatch
from gen import chain, chunks, lit, session
import rerun
import scale
import transport

INFO = dict(
    rule='all write histories of up to 3 sessions (WRITE or APPEND) x 3 lines over a value alphabet, on missing, empty and pre-existing files with and without a final line break, each '
         'followed by reading loops (WHILE NOT EOF, EOF queried several times, partial reading, interleaved reading of two files, copying), in the writing process and in a later one; all '
         'strings up to the length bound over an adversarial alphabet and every byte value as a line; boundary values of every printable type; output and '
         'file bytes compared with the reference model',
    assumptions=['READFILE after the last line is not asserted (its result is not fixed), nor are values with embedded line breaks', 'REAL lines are compared with the documented 6-decimal form'])

READ = ('PROCEDURE rd(n : STRING)\nDECLARE x : STRING\nDECLARE k : INTEGER\nOPENFILE n FOR READ\nWHILE NOT EOF(n) DO\nREADFILE n, x\nk <- k + 1\nOUTPUT k, LENGTH(x), "<", x, ">"\nENDWHILE\nOUTPUT "lines", k, EOF(n), EOF(n)\nCLOSEFILE n\nENDPROCEDURE\n')
VALS = ['""', '"a"', '" b # \'q\' "', '5', 'TRUE', '1/2/2003', "'c'", '2.5', '"\\"x,y\\""', '-7']


def sess(name, mode, vals, close=True):
    return 'OPENFILE "%s" FOR %s\n' % (name, mode) + ''.join('WRITEFILE "%s", %s\n' % (name, v) for v in vals) + ('CLOSEFILE "%s"\n' % name if close else '')


INIT = {'none': None, 'empty': '', 'full': 'old1\nold2\n', 'partial': 'old1\nold2', 'nl': '\n', 'nlnl': '\n\n', 'pnl': '\nx', 'blank': ' ', 'crlf': 'a\r\nb\r\n'}


def written(ctx, hists, init, how):
    """hists: list of histories; a history is a list of (mode, values)."""
    src = READ
    files = []
    for k, h in enumerate(hists):
        nm = 't%d' % k
        if INIT[init] is not None:
            files.append(('f', 0o666, nm, INIT[init]))
        for j, (mode, vals) in enumerate(h):
            src += sess(nm, mode, vals, how != 'exit' or j < len(h) - 1)
            if how == 'each':
                src += 'CALL rd("%s")\n' % nm
        if how == 'read':
            src += 'CALL rd("%s")\n' % nm
    rd = READ + ''.join('CALL rd("t%d")\nCALL rd("t%d")\n' % (k, k) for k in range(len(hists)))
    if how == 'error':
        src += 'OUTPUT 1 / 0\n'
    if how == 'split':
        # every session in a process of its own
        runs = []
        for j in range(max(len(h) for h in hists)):
            runs.append(''.join(sess('t%d' % k, h[j][0], h[j][1], j % 2 == 0) for k, h in enumerate(hists) if j < len(h)))
        runs.append(rd)
    else:
        runs = [src, rd]
    o = chain(ctx, [dict(src=runs[0], files=files)] + runs[1:], model_kw=dict(steps=50000))
    if o[-1][0] is None:
        raise AssertionError('unspecified')


def readings(ctx, content, pattern, repl):
    """Reads a given file with EOF queries at the given points. pattern: string of E (EOF), R (READFILE if a line is left), O (reopen)."""
    f = [('f', 0o666, 'in', content)]
    ops = ['DECLARE x, y : STRING', 'OPENFILE "in" FOR READ']
    left = len(content.split('\n')) - (1 if content.endswith('\n') or content == '' else 0)
    tot = left
    for c in pattern:
        if c == 'E':
            ops.append('OUTPUT EOF("in")')
        elif c == 'R' and left:
            ops += ['READFILE "in", x', 'OUTPUT "<", x, ">"']
            left -= 1
        elif c == 'O':
            ops += ['CLOSEFILE "in"', 'OPENFILE "in" FOR READ']
            left = tot
    if repl:
        chain(ctx, [dict(src='', stdin=session(ops), repl=True, files=f)])
    else:
        chain(ctx, [dict(src='\n'.join(ops) + '\n', files=f)])


LOOPS = [
    'WHILE NOT EOF("in") DO\nREADFILE "in", x\nOUTPUT "<", x, ">"\nENDWHILE\n',
    'REPEAT\nIF NOT EOF("in") THEN\nREADFILE "in", x\nOUTPUT "<", x, ">"\nENDIF\nUNTIL EOF("in")\n',
    'k <- 0\nWHILE EOF("in") = FALSE DO\nREADFILE "in", x\nk <- k + 1\nENDWHILE\nOUTPUT k, x\n',
    'PROCEDURE p()\nIF NOT EOF("in") THEN\nREADFILE "in", x\nOUTPUT LENGTH(x), x\nCALL p()\nENDIF\nENDPROCEDURE\nCALL p()\n',
    'OPENFILE "out" FOR WRITE\nWHILE NOT EOF("in") DO\nREADFILE "in", x\nWRITEFILE "out", x\nENDWHILE\nCLOSEFILE "out"\nOPENFILE "out" FOR READ\nWHILE NOT EOF("out") DO\nREADFILE "out", x\nOUTPUT x\nENDWHILE\nCLOSEFILE "out"\n',
    'FUNCTION more() RETURNS BOOLEAN\nRETURN NOT EOF("in")\nENDFUNCTION\nWHILE more() AND more() DO\nREADFILE "in", x\nOUTPUT x\nENDWHILE\n',
    'OPENFILE "b" FOR READ\nWHILE NOT (EOF("in") AND EOF("b")) DO\nIF NOT EOF("in") THEN\nREADFILE "in", x\nOUTPUT "in", x\nENDIF\nIF NOT EOF("b") THEN\nREADFILE "b", x\nOUTPUT "b", x\nENDIF\nENDWHILE\nCLOSEFILE "b"\n',
    'WHILE NOT EOF("in") DO\nREADFILE "in", x\nOUTPUT x\nENDWHILE\nCLOSEFILE "in"\nOPENFILE "in" FOR APPEND\nWRITEFILE "in", "more"\nCLOSEFILE "in"\nOPENFILE "in" FOR READ\nWHILE NOT EOF("in") DO\nREADFILE "in", x\nOUTPUT x\nENDWHILE\n',
    'FOR i <- 1 TO 3\nWHILE NOT EOF("in") DO\nREADFILE "in", x\nOUTPUT i, x\nENDWHILE\nCLOSEFILE "in"\nOPENFILE "in" FOR READ\nNEXT i\n',
    'DECLARE a : ARRAY[1:20] OF STRING\nn <- 0\nWHILE NOT EOF("in") DO\nREADFILE "in", x\nn <- n + 1\na[n] <- x\nENDWHILE\nFOR i <- n TO 1 STEP -1\nOUTPUT a[i]\nNEXT i\nCLOSEFILE "in"\nOPENFILE "in" FOR WRITE\nFOR i <- n TO 1 STEP -1\nWRITEFILE "in", a[i]\nNEXT i\nCLOSEFILE "in"\nOPENFILE "in" FOR READ\nREPEAT\nIF n > 0 THEN\nREADFILE "in", x\nOUTPUT x\nENDIF\nUNTIL EOF("in")\n',
]


def loop(ctx, contents, k):
    for c in contents:
        chain(ctx, [dict(src='DECLARE x : STRING\nOPENFILE "in" FOR READ\n' + LOOPS[k] + 'OUTPUT "end", EOF("in")\n', files=[('f', 0o666, 'in', c), ('f', 0o666, 'b', 'p\n\nq')]),
                    'DECLARE x : STRING\nOPENFILE "in" FOR READ\n' + LOOPS[0]])


def lines(ctx, strs):
    """All lines in one file, and each line alone in a file of its own."""
    src = READ + 'DECLARE s : STRING\nOPENFILE "all" FOR WRITE\n'
    for j, s in enumerate(strs):
        src += 's <- %s\nWRITEFILE "all", s\nOPENFILE "l%d" FOR WRITE\nWRITEFILE "l%d", s\nCLOSEFILE "l%d"\n' % (lit(s), j, j, j)
        if j % 3 == 1:
            src += 'OPENFILE "l%d" FOR APPEND\nWRITEFILE "l%d", s & s\nCLOSEFILE "l%d"\n' % (j, j, j)
    rd = 'CALL rd("all")\n' + ''.join('CALL rd("l%d")\n' % j for j in range(len(strs)))
    chain(ctx, [src + 'CLOSEFILE "all"\n' + rd, READ + rd], model_kw=dict(steps=100000))


INTS = [0, 1, -1, 7, 10, 255, 256, 65535, 2147483647, 2147483648, -2147483648, 4294967296, 9007199254740993, 9223372036854775807, -9223372036854775807]
REALS = ['0.0', '1.0', '0.5', '-0.5', '2.5', '0.1', '0.000001', '0.1234567', '123456.789', '1234567.890625', '99999999.5', '1000000.0', '10000000.0', '123456789012.25', '100.0', '3.14159265', '-273.15', '1.0 / 3', '2.0 / 3', '1000000000000000.0', '1.999999', '0.999999', '0.25', '12345.678901', '5 / 2', '7 / 7']
DATES = ['1/1/1', '31/12/9999', '29/2/2000', '1/12/99', '09/08/2007', '10/10/2010']


def values(ctx, exprs):
    src = READ + 'OPENFILE "v" FOR WRITE\n' + ''.join('WRITEFILE "v", %s\nOUTPUT %s\n' % (e, e) for e in exprs) + 'CLOSEFILE "v"\nCALL rd("v")\nOPENFILE "v" FOR APPEND\n'
    src += ''.join('x%d <- %s\nWRITEFILE "v", x%d\n' % (k, e, k) for k, e in enumerate(exprs)) + 'WRITEFILE "v", "last"\nCLOSEFILE "v"\n'
    chain(ctx, [src, READ + 'CALL rd("v")\n'])


def typed(ctx, v):
    """The value as literal, variable, element, field, result, constant, parameter, and in the middle of other lines."""
    t = v[0]
    src = READ + 'TYPE R\nDECLARE f : %s\nENDTYPE\nDECLARE x : %s\nDECLARE a : ARRAY[1:2] OF %s\nDECLARE r : R\nCONSTANT K = %s\nx <- %s\na[2] <- x\nr.f <- x\n' % (t, t, t, v[2] if len(v) > 2 else v[1], v[1])
    src += 'FUNCTION g() RETURNS %s\nRETURN x\nENDFUNCTION\nPROCEDURE w(y : %s)\nWRITEFILE "o", y\nENDPROCEDURE\nPROCEDURE z(BYREF y : %s)\nWRITEFILE "o", y\nENDPROCEDURE\nTYPE P = ^%s\nDECLARE p : P\np <- ^x\n' % (t, t, t, t)
    src += 'OPENFILE "o" FOR WRITE\n' + ''.join('WRITEFILE "o", %s\nWRITEFILE "o", "-"\n' % e for e in (v[1], 'x', 'a[2]', 'r.f', 'K', 'g()', 'p^', '(x)')) + 'CALL w(x)\nCALL z(x)\nCALL w(%s)\nCLOSEFILE "o"\nCALL rd("o")\n' % v[1]
    chain(ctx, [src, READ + 'CALL rd("o")\n'])


TYPED = [('INTEGER', '-45', '45'), ('REAL', '2.25'), ('BOOLEAN', 'FALSE'), ('CHAR', "' '"), ('CHAR', "'x'"), ('STRING', '""'), ('STRING', '"a  b"'), ('DATE', '29/2/2004'), ('BOOLEAN', 'TRUE'), ('INTEGER', '9223372036854775807')]


def sizes(ctx, n, w):
    """n lines of w characters."""
    src = 'DECLARE s, x : STRING\nDECLARE k : INTEGER\ns <- ""\nFOR i <- 1 TO %d\ns <- s & CHR(97 + (i MOD 26))\nNEXT i\nOPENFILE "big" FOR WRITE\nFOR i <- 1 TO %d\nWRITEFILE "big", s & NUM_TO_STR(i)\nNEXT i\nCLOSEFILE "big"\n' % (w, n)
    rd = 'DECLARE x : STRING\nDECLARE k, t : INTEGER\nOPENFILE "big" FOR READ\nWHILE NOT EOF("big") DO\nREADFILE "big", x\nk <- k + 1\nt <- t + LENGTH(x)\nENDWHILE\nOUTPUT k, t, RIGHT(x, 3)\nCLOSEFILE "big"\n'
    chain(ctx, [src, rd], model_kw=dict(steps=200000, max_string=1 << 20))


ALIAS = ['s', './s', '././s', '../d/s']


def aliases(ctx, pats, init, n):
    """One file appended to through several names: every line is there, the lines of each name in order (how the names interleave is not asserted)."""
    for pat in pats:
        src = ''.join('OPENFILE "%s" FOR APPEND\n' % ALIAS[k] for k in range(n))
        want = [[] for _ in range(n)]
        for j, c in enumerate(pat):
            k = int(c) % n
            want[k].append('%d line %d' % (k, j))
            src += 'WRITEFILE "%s", "%d line %d"\n' % (ALIAS[k], k, j)
        src += ''.join('CLOSEFILE "%s"\n' % ALIAS[k] for k in (range(n) if len(pat) % 2 else reversed(range(n))))
        src += READ + 'CALL rd("s")\n'
        r = ctx.run(src, files=[('f', 0o666, 's', init)], listing=True)
        if ctx.orderly(r) or r.code != 0:
            raise Mismatch('appending through several names failed: %s' % r.err)
        ls = r.files['s'].split('\n')
        old = init.split('\n')[:-1]
        if ls.pop() != '' or ls[:len(old)] != old or len(ls) != len(old) + len(pat):
            raise Mismatch('lines appended through several names: %r wanted %r after %r' % (ls, want, old))
        for k in range(n):
            if [l for l in ls[len(old):] if l.startswith('%d ' % k)] != want[k]:
                raise Mismatch('lines appended through several names: %r wanted %r after %r' % (ls, want, old))
        if r.out.split('\n')[-2] != 'lines%dTRUETRUE' % len(ls):
            raise Mismatch('reading loop over an appended file: %r for %r' % (r.out, ls))
        ctx.validated += 1
        ctx.steps += len(pat)
        ctx.observe(r.files['s'])


def strs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def per_session(vals, n):
    return [list(c) for k in range(n + 1) for c in itertools.product(vals, repeat=k)]


def cases(tier):
    yield from scale.cases(tier, 'C15')
    yield from transport.cases(tier, 'C15')
    yield from rerun.cases(tier, 'C15')
    quick = False
    deep = tier != 'quick'
    hows = ['each', 'read', 'exit', 'error', 'split']
    # 3 sessions x 3 lines over two values
    S2 = per_session(['""', '"a b"'], 3)
    i = 0
    for c in chunks(itertools.product(S2, repeat=3), 8):
        hs = []
        for a, b, d in c:
            hs.append([('WRITE', a), ('APPEND', b), ('APPEND', d)])
        for h in (hows[i % 5],) if quick else hows:
            yield (written, hs, 'none', h)
        i += 1
    # modes on every initial file, over all values
    S1 = per_session(VALS[:4] if quick else VALS[:7], 2)
    for init in INIT:
        for m1 in ('WRITE', 'APPEND'):
            if init == 'none' and m1 == 'APPEND':
                continue
            for c in chunks(S1, 10):
                for h in hows:
                    yield (written, [[(m1, a)] for a in c], init, h)
            for m2 in ('WRITE', 'APPEND'):
                for c in chunks(itertools.product(per_session(VALS[:2], 2), repeat=2), 8):
                    yield (written, [[(m1, a), (m2, b)] for a, b in c], init, hows[i % 5])
                    i += 1
                for m3 in ('WRITE', 'APPEND'):
                    for c in chunks(itertools.product(per_session(VALS[1:3], 1 if quick else 2), repeat=3), 8):
                        yield (written, [[(m1, a), (m2, b), (m3, d)] for a, b, d in c], init, hows[i % 5])
                        i += 1
    for c in chunks(per_session(VALS, 2 if quick else 3), 12):
        yield (written, [[('WRITE', a)] for a in c], 'none', hows[i % 5])
        i += 1
    # reading patterns
    CONT = ['', '\n', 'a', 'a\n', '\n\n', 'a\n\n', '\na', 'a\nb', 'a\nb\n', 'a\n\nb\n', ' \n', 'a\nb\nc\n', '\n\n\n', 'x\0y\nz\n', '\xff\n\x80', 'r\r\ns\r\n']
    for c in CONT:
        for n in range(1, 8 if deep else 7):
            for p in itertools.product('ERO' if n < 5 or not quick else 'ER', repeat=n):
                yield (readings, c, ''.join(p) + 'E', n == 3)
    allc = [''.join(x) for k in range(0, 5 if quick else 7) for x in itertools.product('a\n ', repeat=k)]
    for k in range(len(LOOPS)):
        for c in chunks(allc + CONT, 6):
            yield (loop, c, k)
    # contents
    for c in chunks(strs('a" #', 4 if quick else 5), 10):
        yield (lines, c)
    for c in chunks([x for b in range(256) if b != 10 for x in (chr(b), 'a' + chr(b), chr(b) + 'a', chr(b) * 2)], 10):
        yield (lines, c)
    for c in chunks(['x' * k for k in (127, 128, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 20000)], 3):
        yield (lines, c)
    if not quick:
        for c in chunks(strs('\r\t\0\\,\'/5', 4), 10):
            yield (lines, c)
    yield (values, [str(i) for i in INTS])
    yield (values, REALS)
    yield (values, DATES + ['TRUE', 'FALSE', "'c'", '"s"', '1 = 1', '2 + 3', '"a" & "b"', "'x' & 'y'", 'LENGTH("abc")', 'NOT TRUE', '-5', '10 DIV 3', '1.5 * 2', 'LEFT("abc", 2)', 'CHR(65)', 'SETDATE(1, 2, 2003)'])
    for j in range(0, 1000, 50 if quick else 10):
        yield (values, ['%d.%06d' % (j * 7 % 1000, j * 104729 % 1000000), '-%d.%d' % (j, j), '%d' % (j * 7919), '%d / 7' % j, '%d / 1000' % j])
    for v in TYPED:
        yield (typed, v)
    for n in (1, 2, 3, 4):
        for init in ('', 'old\n', 'old 1\n\nold 2\n'):
            for c in chunks((''.join(map(str, t)) for k in range(1, 6 if n < 4 else 5) for t in itertools.product(range(n), repeat=k)), 20):
                yield (aliases, c, init, n)
    for n, w in [(1, 0), (100, 10), (500, 3), (3, 5000), (200, 100)] + ([(2000, 5), (10, 60000)] if not quick else []):
        yield (sizes, n, w)
    if deep:
        S3 = per_session(['""', '"a"', '5'], 3)
        for c in chunks(itertools.product(S3, repeat=3), 8):
            yield (written, [[('WRITE', a), ('APPEND', b), ('APPEND', d)] for a, b, d in c], 'none', hows[i % 5])
            i += 1
        for c in chunks(strs('a" #', 7), 10):
            yield (lines, c)
        for c in chunks(strs('\r\t\0\\,\'/5', 5), 10):
            yield (lines, c)
        for c in CONT:
            for p in itertools.product('ER', repeat=11):
                yield (readings, c, ''.join(p) + 'E', True)
        long = [''.join(x) for x in itertools.product('a\n', repeat=10)]
        for k in range(len(LOOPS)):
            for c in chunks(long, 6):
                yield (loop, c, k)
