"""C18: DATE values are always real calendar dates in chronological order."""
import datetime
import itertools
import time

import client
import psref
from engine import Mismatch
from gen import batches, chain, chunks, session
import rerun
import transport

INFO = dict(
    rule='every (d, m) in [0, 300]^2 for the class years, every y in 1..9999 for fixed (d, m), each single component over 0..70000 (thorough; the values that wrap into range in quick) and 64-bit '
         'boundaries, all through SETDATE and through a literal; DAYINDEX of every date of 1600..2400 (thorough: of every date of years 1..9999); all ordered pairs of a 400-date sample under the six comparison '
         'operators; every date of a sample through every store channel; judged by the proleptic Gregorian calendar of the Python library (and the reference model for the channels)',
    assumptions=['a year below 1 may be accepted or rejected, but an accepted date is judged by the proleptic calendar with a year 0; a year above 9999 may be accepted or rejected, but an accepted date has the components that were given'],
    flavor={'quick': 'plain', 'thorough': 'plain'})

YEARS_Q = [1, 4, 100, 400, 1900, 2000, 2023, 2024, 9999]
YEARS_T = sorted(set(YEARS_Q + [2, 3, 5, 99, 101, 104, 200, 300, 399, 401, 404, 500, 800, 1000, 1200, 1500, 1582, 1583, 1600, 1700, 1752, 1800, 1904, 1969, 1970, 1972, 1999, 2001, 2021,
                            2022, 2025, 2037, 2038, 2100, 2200, 2300, 2400, 2500, 4000, 4096, 5000, 7999, 8000, 8192, 9600, 9700, 9900, 9996, 9998]))
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def valid(d, m, y):
    if 1 <= y <= 9999:
        try:
            datetime.date(y, m, d)
            return True
        except (ValueError, OverflowError):
            return False
    return 1 <= m <= 12 and 1 <= d <= MDAYS[m - 1] + (m == 2 and leap(y))


def weekday(d, m, y):
    return datetime.date(y, m, d).isoweekday() % 7 + 1


def entries(out):
    """(entry, printed lines) of a REPL session."""
    r = []
    for l in out.split('\n')[2:]:
        if l[:2] == '> ':
            r.append((l[2:], []))
        elif r and l:
            r[-1][1].append(l)
    return r


def check(ctx, dates, forms=('SETDATE(%d, %d, %d)', '%d/%d/%d')):
    """One entry per form and date."""
    lines, exp = [], []
    for t in dates:
        for f in forms:
            lines.append(f % t)
            exp.append(t)
            if valid(*t) and t[2] <= 9999:
                lines.append('OUTPUT DAY(%s), " ", MONTH(%s), " ", YEAR(%s), " ", DAYINDEX(%s)' % ((f % t,) * 4))
                exp.append(None)
    r = ctx.run('', (), session(lines), out_cap=1 << 22)
    ds = ctx.orderly(r, True)
    got = [(l, o) for l, o in entries(r.out) if l]
    if [l for l, o in got] != lines:
        raise Mismatch('the session does not read back: %d entries of %d' % (len(got), len(lines)))
    failed = 0
    t = None
    for (l, o), e in zip(got, exp):
        if e is None:
            x = ['%d %d %d %d' % (t + (weekday(*t),))]
            if o != x:
                raise Mismatch('%s printed %r, expected %r' % (l, o, x))
            continue
        t = e
        ctx.steps += 1
        if t[2] < 1:
            failed += not o
            continue
        if o:
            if not valid(*t):
                raise Mismatch('%s is accepted as %r, but is not a calendar date' % (l, o))
            if o != ['%d/%d/%d' % t]:
                raise Mismatch('%s is %r' % (l, o))
        else:
            failed += 1
            if valid(*t) and t[2] <= 9999:
                raise Mismatch('%s is rejected, but is a calendar date' % l)
    if len(ds) != failed or any(d.kind != 'runtime' for d in ds):
        raise Mismatch('%d entries without a value, but the diagnostics are %r' % (failed, [d.kind for d in ds][:50]))
    ctx.validated += 1
    ctx.observe(r.out)


def chk(dates, n=700):
    for c in chunks(dates, n):
        yield (check, c)


def big(ctx, dates):
    """Components that do not fit: SETDATE with any 64-bit value, literals with any number of digits."""
    lines = []
    for d, m, y in dates:
        if all(abs(v) < 2 ** 63 for v in (d, m, y)):
            lines.append(('SETDATE(%d, %d, %d)' % (d, m, y), (d, m, y)))
        if min(d, m, y) >= 0:
            lines.append(('%d/%d/%d' % (d, m, y), (d, m, y)))
            lines.append(('000%d/0%d/00%d' % (d, m, y), (d, m, y)))
    r = ctx.run('', (), session([l for l, _ in lines]), out_cap=1 << 22)
    ctx.orderly(r, True)
    got = [(l, o) for l, o in entries(r.out) if l]
    if [l for l, o in got] != [l for l, _ in lines]:
        raise Mismatch('the session does not read back: %d entries of %d' % (len(got), len(lines)))
    for (l, o), (_, t) in zip(got, lines):
        if o and t[2] >= 1 and (not valid(*t) or o != ['%d/%d/%d' % t]):
            raise Mismatch('%s is accepted as %r' % (l, o))
        if not o and 1 <= t[2] <= 9999 and valid(*t):
            raise Mismatch('%s is rejected' % l)
    ctx.validated += 1
    ctx.observe(r.out)


def calendar(ctx, y0, y1):
    """Every date of the years, made by SETDATE, taken apart again, and compared with its successor."""
    src = ('DECLARE d : DATE\nDECLARE e : DATE\ne <- SETDATE(31, 12, %d)\n' % (y0 - 1) if y0 > 1 else 'DECLARE d : DATE\nDECLARE e : DATE\ne <- 1/1/1\n') + \
        'DECLARE n : INTEGER\nDECLARE y : INTEGER\nFUNCTION days(m : INTEGER, leap : BOOLEAN) RETURNS INTEGER\nCASE OF m\n2: IF leap THEN\nRETURN 29\nELSE\nRETURN 28\nENDIF\n' \
        '4: RETURN 30\n6: RETURN 30\n9: RETURN 30\n11: RETURN 30\nENDCASE\nRETURN 31\nENDFUNCTION\n'
    exp = []
    for y in range(y0, y1 + 1):
        src += 'CALL p(%d, %s)\n' % (y, 'TRUE' if leap(y) else 'FALSE')
    src = src.replace('CALL p', 'PROCEDURE p(y : INTEGER, l : BOOLEAN)\nFOR m <- 1 TO 12\nFOR k <- 1 TO days(m, l)\nd <- SETDATE(k, m, y)\nOUTPUT d, " ", DAY(d), " ", MONTH(d), " ", YEAR(d), " ", DAYINDEX(d), " ", e < d, d <= e\n'
                      'e <- d\nNEXT k\nNEXT m\nENDPROCEDURE\nCALL p', 1)
    t = datetime.date(y0, 1, 1)
    first = y0 == 1
    while t.year <= y1:
        exp.append('%d/%d/%d %d %d %d %d %s' % (t.day, t.month, t.year, t.day, t.month, t.year, t.isoweekday() % 7 + 1, 'FALSETRUE' if first else 'TRUEFALSE'))
        first = False
        if t == datetime.date.max:
            break
        t += datetime.timedelta(1)
    r = ctx.run(src, steps=10000000, timeout_ms=60000, out_cap=1 << 26)
    if ctx.orderly(r):
        raise Mismatch('a calendar date is rejected: %s' % r.err[:300])
    got = r.out.split('\n')[:-1]
    ctx.steps += len(got)
    for g, x in itertools.zip_longest(got, exp):
        if g != x:
            raise Mismatch('printed %r, expected %r' % (g, x))
    ctx.validated += 1
    ctx.observe(r.out)


def early(ctx, y0, y1):
    """Dates before year 1 may be rejected; one that is accepted is a date of the proleptic calendar like every other."""
    ds = [(d, m, y) for y in range(y0, y1 + 1) for m, d in ((1, 1), (1, 31), (2, 28), (2, 29), (2, 30), (3, 1), (4, 30), (4, 31), (7, 4), (12, 31), (12, 32), (0, 1), (13, 1), (6, 0))]
    lines = []
    for t in ds:
        e = 'SETDATE(%d, %d, %d)' % t
        lines += ['d <- SETDATE(3, 3, 3)', 'd <- ' + e, 'OUTPUT DAY(d), " ", MONTH(d), " ", YEAR(d), " ", DAYINDEX(d), " ", d, " ", d < SETDATE(1, 1, 1), d = %s, %s > d' % (e, e)]
        if t[2] == 0:
            lines += ['d <- %d/%d/%d' % t, 'OUTPUT DAY(d), " ", MONTH(d), " ", YEAR(d), " ", DAYINDEX(d), " ", d, " ", d < 1/1/1, d = %s, %s > d' % (e, e)]
    r = ctx.run('', (), session(lines), out_cap=1 << 22)
    ctx.orderly(r, True)
    got = [(l, o) for l, o in entries(r.out) if l]
    if [l for l, o in got] != lines:
        raise Mismatch('the session does not read back: %d entries of %d' % (len(got), len(lines)))
    it = iter(ds)
    for l, o in got:
        if l == 'd <- SETDATE(3, 3, 3)':
            t = next(it)
        if not l.startswith('OUTPUT') or not o or o[0].startswith('3 3 3 '):
            continue
        if not valid(*t):
            raise Mismatch('%r is accepted, but is not a calendar date' % (t,))
        x = '%d %d %d %d %d/%d/%d TRUETRUEFALSE' % (t + (weekday(t[0], t[1], t[2] % 400 + 2000),) + t)
        if o != [x]:
            raise Mismatch('the date %r prints %r, expected %r' % (t, o, x))
        ctx.steps += 1
    ctx.validated += 1
    ctx.observe(r.out)


def dayindex_lit(ctx, y):
    """Every date of a year as a literal."""
    t = datetime.date(y, 1, 1)
    src, exp = '', ''
    while t.year == y:
        l = '%d/%d/%d' % (t.day, t.month, t.year)
        src += 'OUTPUT %s, " ", DAYINDEX(%s), " ", DAY(%s), MONTH(%s), YEAR(%s), SETDATE(%d, %d, %d) = %s\n' % (l, l, l, l, l, t.day, t.month, t.year, l)
        exp += '%s %d %d%d%dTRUE\n' % (l, t.isoweekday() % 7 + 1, t.day, t.month, t.year)
        if t == datetime.date.max:
            break
        t += datetime.timedelta(1)
    r = ctx.run(src)
    if ctx.orderly(r):
        raise Mismatch('a calendar date is rejected: %s' % r.err[:300])
    if r.out != exp:
        for g, x in itertools.zip_longest(r.out.split('\n'), exp.split('\n')):
            if g != x:
                raise Mismatch('printed %r, expected %r' % (g, x))
    ctx.steps += len(exp)
    ctx.validated += 1


def sample():
    """400 dates: all combinations around month, year, century and leap boundaries."""
    s = set()
    for y in (1, 2, 12, 31, 99, 100, 372, 1600, 1899, 1900, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 9998, 9999):
        for m in (1, 2, 3, 7, 11, 12):
            for d in (1, 2, 28, 29, 30, 31):
                if valid(d, m, y):
                    s.add((y, m, d))
    s = sorted(s)
    k = len(s) / 400
    r = {s[int(i * k)] for i in range(400)}
    for t in s:
        if len(r) >= 400:
            break
        r.add(t)
    return [(d, m, y) for y, m, d in sorted(r)]


OPS = ['=', '<>', '<', '<=', '>', '>=']


def pairs(ctx, rows, how):
    """rows x all 400 sample dates."""
    s = sample()
    n = len(s)
    src = 'DECLARE a : ARRAY[1:%d] OF DATE\nDECLARE b, e : DATE\n' % n
    for i, t in enumerate(s):
        src += 'a[%d] <- %s\n' % (i + 1, '%d/%d/%d' % t if i % 2 else 'SETDATE(%d, %d, %d)' % t)
    for i in rows:
        l = '%d/%d/%d' % s[i]
        if how == 'lit':
            src += 'FOR i <- 1 TO %d\nOUTPUT %s\nNEXT i\n' % (n, ', '.join('%s %s a[i]' % (l, o) for o in OPS))
            src += 'FOR i <- 1 TO %d\nOUTPUT %s\nNEXT i\n' % (n, ', '.join('a[i] %s %s' % (o, l) for o in OPS))
        else:
            src += 'b <- a[%d]\nFOR i <- 1 TO %d\nOUTPUT %s\nNEXT i\n' % (i + 1, n, ', '.join('b %s a[i]' % o for o in OPS))
            src += 'FOR i <- 1 TO %d\ne <- a[i]\nCASE OF e\na[%d]: OUTPUT i\nENDCASE\nNEXT i\n' % (n, i + 1)

    def res(p, q):
        return ''.join('TRUE' if v else 'FALSE' for v in (p == q, p != q, p < q, p <= q, p > q, p >= q)) + '\n'
    key = [t[::-1] for t in s]
    exp = ''
    for i in rows:
        exp += ''.join(res(key[i], k) for k in key)
        exp += ''.join(res(k, key[i]) for k in key) if how == 'lit' else '%d\n' % (i + 1)
    r = ctx.run(src, steps=10000000, timeout_ms=60000, out_cap=1 << 26)
    if ctx.orderly(r):
        raise Mismatch('a comparison of dates failed: %s' % r.err[:300])
    if r.out != exp:
        g, x = r.out.split('\n'), exp.split('\n')
        for k in range(max(len(g), len(x))):
            if k >= len(g) or k >= len(x) or g[k] != x[k]:
                raise Mismatch('line %d: printed %r, expected %r' % (k, g[k:k + 1], x[k:k + 1]))
    ctx.steps += 6 * n * len(rows)
    ctx.validated += 1
    ctx.observe(r.out)


CHAN = [
    'x <- %s\nOUTPUT x\nDECLARE y : DATE\ny <- x\nx <- 3/4/2005\nOUTPUT y, DAY(y), MONTH(y), YEAR(y), DAYINDEX(y)\n',
    'CONSTANT K = %s\nOUTPUT K, DAY(K), DAYINDEX(K), K = K, K > K\n',
    'DECLARE a : ARRAY[1:2] OF DATE\nDECLARE b : ARRAY[1:2] OF DATE\na[2] <- %s\nb <- a\na[2] <- 1/1/2001\nOUTPUT b[2], DAY(b[2]), MONTH(b[2]), YEAR(b[2])\n',
    'TYPE R\nDECLARE d : DATE\nDECLARE n : INTEGER\nENDTYPE\nDECLARE r : R\nDECLARE q : R\nr.d <- %s\nq <- r\nr.d <- 1/1/2001\nOUTPUT q.d, DAY(q.d), MONTH(q.d), YEAR(q.d), DAYINDEX(q.d)\n',
    'TYPE P = ^DATE\nDECLARE p : P\nDECLARE x : DATE\np <- ^x\np^ <- %s\nOUTPUT x, p^, DAY(p^), MONTH(x), YEAR(p^)\n',
    'PROCEDURE p(BYVAL v : DATE, BYREF r : DATE)\nr <- v\nv <- 1/1/2001\nENDPROCEDURE\nDECLARE a, b : DATE\na <- %s\nCALL p(a, b)\nOUTPUT a, b, a = b\n',
    'FUNCTION f(d : DATE) RETURNS DATE\nRETURN SETDATE(DAY(d), MONTH(d), YEAR(d))\nENDFUNCTION\nOUTPUT f(%s), DAYINDEX(f(f(3/4/2005)))\n',
    'd <- %s\nOPENFILE "o.txt" FOR WRITE\nWRITEFILE "o.txt", d\nCLOSEFILE "o.txt"\nOPENFILE "o.txt" FOR READ\nREADFILE "o.txt", s\nOUTPUT s\nCLOSEFILE "o.txt"\n',
    'd <- %s\nDECLARE e : DATE\nOPENFILE "r.dat" FOR RANDOM\nSEEK "r.dat", 1\nPUTRECORD "r.dat", d\nSEEK "r.dat", 1\nGETRECORD "r.dat", e\nCLOSEFILE "r.dat"\nOUTPUT e, DAY(e), MONTH(e), YEAR(e), DAYINDEX(e), e = d\n',
    'd <- %s\ns <- "<" & STRING(d) & ">"\nOUTPUT s\n',
    'FOR i <- 1 TO 2\nd <- %s\nOUTPUT d\nNEXT i\nIF d = d AND NOT (d <> d) THEN\nOUTPUT "same"\nENDIF\nWHILE d < 31/12/9999 AND i < 10\ni <- i + 1\nd <- 31/12/9999\nENDWHILE\nOUTPUT d\n',
    'day <- 7\nDate <- 5/5/2005\nDay <- 3\nMonth <- 4\nYear <- 5\nOUTPUT %s\nOUTPUT DAY(%s), Date, Day, Month, Year\n',
    'CASE OF %s\n1/1/2000: OUTPUT "first"\n29/2/2000: OUTPUT "leap"\n31/12/1999: OUTPUT "last"\nOTHERWISE: OUTPUT "other"\nENDCASE\n',
    'OUTPUT "before"\nOUTPUT DAY(%s)\nOUTPUT "after"\n',
    'PROCEDURE p(n : INTEGER)\nIF n = 0 THEN\nOUTPUT DAYINDEX(%s)\nELSE\nCALL p(n - 1)\nENDIF\nOUTPUT n\nENDPROCEDURE\nCALL p(3)\n',
]
CHDATES = [(1, 1, 2000), (29, 2, 2000), (31, 12, 1999), (28, 2, 1900), (1, 3, 1), (31, 12, 9999), (30, 4, 2024), (12, 10, 2001), (9, 9, 999), (10, 1, 12),
           (29, 2, 1900), (29, 2, 2023), (31, 4, 2024), (0, 1, 2000), (1, 0, 2000), (32, 1, 2000), (1, 13, 2000), (30, 2, 2000), (257, 1, 2000), (1, 257, 2000), (31, 6, 2000), (31, 9, 2000), (31, 11, 2000)]


def channel(ctx, c, t):
    for f in ('%d/%d/%d', 'SETDATE(%d, %d, %d)', 'SETDATE(%d - 1 + 1, 0 + %d, INT(%d.0))'):
        e = f % t
        ctx.diff(CHAN[c].replace('%s', e), lines=True)


def today(ctx):
    for _ in range(3):
        a = datetime.date.today()
        r = ctx.run('d <- TODAY()\nOUTPUT d, " ", DAY(d), " ", MONTH(d), " ", YEAR(d), " ", DAYINDEX(d)\nOUTPUT SETDATE(DAY(d), MONTH(d), YEAR(d)) = d\n')
        b = datetime.date.today()
        if a == b:
            x = '%d/%d/%d %d %d %d %d\nTRUE\n' % (a.day, a.month, a.year, a.day, a.month, a.year, a.isoweekday() % 7 + 1)
            if ctx.orderly(r) or r.out != x:
                raise Mismatch('TODAY() gives %r, expected %r' % (r.out, x))
            return


def cases(tier):
    yield from rerun.cases(tier, 'C18')
    yield from transport.cases(tier, 'C18')
    q = tier == 'quick'
    yield (today,)
    for c in range(len(CHAN)):
        for t in CHDATES:
            yield (channel, c, t)
    wrap = [257, 258, 284, 285, 287, 300]
    for y in YEARS_Q if q else YEARS_T:
        yield from chk((d, m, y) for d in range(301) for m in range(301))
    fixed = [(29, 2), (28, 2), (1, 1), (31, 12), (31, 4), (30, 2), (0, 1), (1, 13)]
    if not q:
        fixed = sorted(set(fixed + [(d, m) for m in range(14) for d in (0, 1, 28, 29, 30, 31, 32)]))
    for d, m in fixed:
        yield from chk((d, m, y) for y in range(1, 10000))
    if q:
        far = sorted({k * 256 + j for k in (1, 2, 127, 128, 255, 256, 257, 273) for j in (0, 1, 2, 3, 12, 13, 28, 29, 30, 31, 32)} | set(range(301, 420))
                     | {k + j for k in (32767, 32768, 65535, 65536, 70000) for j in (-1, 0, 1)})
    else:
        far = list(range(301, 70001))
    for a, b in ((1, 1), (28, 2), (12, 12)):
        for t in [(lambda v: (v, b, 2000)), (lambda v: (a, v, 2000)), (lambda v: (a, b, v + 9700))]:
            yield from chk([t(v) for v in far])
    for f in ([257, 65537], [258, 65794], [70000, 300]):
        yield from chk([(a, b, y) for a in f for b in f for y in (1, 2000, 9999, 65536 + 2000, 67536, 32768 + 2000)])
    e = [1, 2, 12, 28, 2000, 9999]
    hs = sorted({s * (2 ** p + k) for p in (8, 15, 16, 31, 32, 33, 48, 62, 63, 64, 65, 128) for k in (0, 1, 2, 12, 28, 2000, -1, -2) for s in (1, -1)})
    l = []
    for v in hs + e:
        for w in e:
            l += [(v, 1, 2000), (1, v, 2000), (1, 1, v), (v, w, 2000), (w, v, 2000), (v, v, 2000), (w, 2, v), (v, 2, v), (v, v, v)]
    for c in chunks(sorted(set(l)), 300):
        yield (big, c)
    if q:
        for y in range(1600, 2401, 20):
            yield (calendar, y, min(y + 19, 2400))
    else:
        for y in range(1, 10000, 20):
            yield (calendar, y, min(y + 19, 9999))
    for y in range(1600, 2401, 25 if q else 1):
        yield (dayindex_lit, y)
    for y in range(-430, 1, 10):
        yield (early, y, min(y + 9, 0))
    for y in range(-32767, -430, 997 if q else 11):
        yield (early, y, y + 1)
    n = len(sample())
    for c in chunks(range(n), 8):
        yield (pairs, list(c), 'var')
        yield (pairs, list(c), 'lit')
