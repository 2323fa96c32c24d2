"""C17: string, character, conversion and numeric built-ins meet their contracts."""
import itertools

import psref
from engine import Mismatch
from gen import batch, batches, chunks, lit, prog, session
import rerun
import scale
import transport

INFO = dict(
    rule="all strings up to length 4 over {a Z 0 ' ' . -} with every (i, n) in [-2, length+2]^2 and extreme 64-bit positions for the substring functions; all byte values and pairs of them for the case and code functions; all digit/point "
         'strings up to the length bound and all strings up to the length bound over sign, letter, blank, exponent characters for the conversions; k/10^d for ranges of k and d <= 6; INT on '
         'eighths and boundaries; RAND with every pair of scripted answers of rand() from a boundary set and all answers of a generator over 10^5 draws; every built-in called from procedures and with globals named like its '
         'parameters; results compared with the reference model (RAND with its bounds)',
    assumptions=['IS_NUM of signed, scaled or empty text, INTEGER() of text with a point, codes above 127 in ASC/CHR and MID(s, LENGTH(s)+1, 0) are not asserted'],
    flavor={'quick': 'plain', 'thorough': 'asan'})

ALPHA = 'aZ0 .-'
BIG = ['9223372036854775807', '-9223372036854775807', '4294967296', '4294967297', '-4294967295', '2147483648', '-1000', '1000']


def strs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def substr(s):
    q = lit(s)
    n = len(s)
    yield 'LENGTH(%s)' % q
    r = range(-2, n + 3)
    for k in r:
        yield 'LEFT(%s, %d)' % (q, k)
        yield 'RIGHT(%s, %d)' % (q, k)
        if 0 <= k <= n:
            yield 'LEFT(%s, %d) & RIGHT(%s, LENGTH(%s) - %d) = %s' % (q, k, q, q, k, q)
    for i in r:
        for k in r:
            if (i, k) != (n + 1, 0):
                yield 'MID(%s, %d, %d)' % (q, i, k)


def substr_big(s):
    q = lit(s)
    for k in BIG:
        yield 'LEFT(%s, %s)' % (q, k)
        yield 'RIGHT(%s, %s)' % (q, k)
        for i in BIG + ['1', '0', '2']:
            yield 'MID(%s, %s, %s)' % (q, k, i)
            yield 'MID(%s, %s, %s)' % (q, i, k)


def bytestr(ctx, strings):
    """Every valid position in strings of arbitrary bytes, and the case functions, in file mode."""
    src = 'PROCEDURE t(s : STRING)\nDECLARE l : INTEGER\nl <- LENGTH(s)\nOUTPUT l, "<", TO_UPPER(s), "><", TO_LOWER(s), ">"\nFOR i <- 0 TO l\nOUTPUT LEFT(s, i), "|", RIGHT(s, i), "|", LEFT(s, i) & RIGHT(s, l - i) = s\nNEXT i\n' \
          'FOR i <- 1 TO l\nFOR j <- 0 TO l - i + 1\nOUTPUT MID(s, i, j)\nIF MID(s, i, j) <> RIGHT(LEFT(s, i + j - 1), j) THEN\nOUTPUT "differs"\nENDIF\nNEXT j\nNEXT i\nENDPROCEDURE\n'
    for s in strings:
        src += 'CALL t(%s)\n' % lit(s)
    ctx.diff(src, model_kw=dict(steps=100000))


def chr_lit(c):
    if c == '\n':
        return "'\\n'"
    if c in "'\\":
        return "'\\%s'" % c
    if c < ' ' or c == '\x7f':
        return 'CHR(%d)' % ord(c)
    return "'%s'" % c


def chars(ctx, codes):
    src = 'DECLARE c : CHAR\n'
    for k in codes:
        src += 'c <- %s\nOUTPUT "<", UCASE(c), LCASE(c), TO_UPPER(c), TO_LOWER(c), TO_UPPER("x" & c & "y"), TO_LOWER(c & "X"), UCASE(LCASE(c)) = UCASE(c), LENGTH(c), LEFT(c, 1) = c, ">"\n' % chr_lit(chr(k))
        if k < 128:
            src += 'OUTPUT ASC(c), ASC(CHR(%d)) = %d, CHR(ASC(c)) = c, c = CHR(%d), ASC(c) = %d\n' % (k, k, k, k)
    ctx.diff(src)


def conv(s):
    q = lit(s)
    y = psref._NUMERAL.match(s)
    if y:
        yield 'IS_NUM(%s)' % q
        yield 'STR_TO_NUM(%s)' % q
        yield 'REAL(%s)' % q
        yield 'STR_TO_NUM(%s) * 1000000.0 - 1.0' % q
        if '.' not in s:
            yield 'INTEGER(%s)' % q
            yield 'INTEGER(%s) + 1 = %d' % (q, int(s) + 1)
        elif s[0] != '.' and s[-1] != '.':
            yield 'STR_TO_NUM(%s) = %s' % (q, s)
            yield 'REAL(%s) = %s' % (q, s)
    elif not psref._ANYNUM.match(s) and not low_hex(s):
        if s not in ('', '.'):
            yield 'IS_NUM(%s)' % q
        yield 'STR_TO_NUM(%s)' % q
        yield 'REAL(%s)' % q
        yield 'INTEGER(%s)' % q


def low_hex(s):
    return 'x' in s.lower() and '0' in s


def convfile(ctx, ss):
    ctx.diff(''.join('OUTPUT %s\n' % e for s in ss for e in conv(s)))


def roundtrip(ctx, d, lo, hi, step):
    """STR_TO_NUM(NUM_TO_STR(x)) = x for x = k / 10^d."""
    ctx.diff('DECLARE x : REAL\nDECLARE bad, n : INTEGER\nFOR k <- %d TO %d STEP %d\nx <- k / %s\nn <- n + 1\nIF STR_TO_NUM(NUM_TO_STR(x)) <> x THEN\nbad <- bad + 1\nOUTPUT "bad", k\nENDIF\n'
             'IF STR_TO_NUM(NUM_TO_STR(-x)) <> -x THEN\nbad <- bad + 1\nOUTPUT "badneg", k\nENDIF\nNEXT k\nOUTPUT n, " ", bad, " ", NUM_TO_STR(x), " ", NUM_TO_STR(k)\n' % (lo, hi, step, '1' + '0' * d + '.0'), model_kw=dict(steps=200000))


def num(ctx, es):
    batch(ctx, ['DECLARE x : REAL'], es)


def rand_one(ctx, x, scripts):
    """RAND(x) for scripted answers of rand()."""
    for s in scripts:
        src = 'DECLARE y : REAL\nDECLARE x, bad : INTEGER\nx <- %s\nFOR i <- 1 TO %d\ny <- RAND(x)\nIF NOT (y >= 0.0 AND y <= x) THEN\nbad <- bad + 1\nOUTPUT "bad", i, " ", y\nENDIF\nNEXT i\nOUTPUT "end", bad\n' % (x, max(1, len(s)))
        r = ctx.run(src, rands=s)
        ctx.orderly(r)
        if r.code != 0 or r.out != 'end0\n':
            raise Mismatch('RAND(%s) leaves 0..%s for the answers %r of rand(): %r %r' % (x, x, s, r.out[:200], r.err[:200]))
        ctx.validated += 1
        ctx.steps += len(s)
        ctx.observe(('rand', x, s))


def rand_many(ctx, x, n):
    src = 'DECLARE y : REAL\nDECLARE bad : INTEGER\nFOR i <- 1 TO %d\ny <- RAND(%s)\nIF y < 0.0 OR y > %s THEN\nbad <- bad + 1\nENDIF\nNEXT i\nOUTPUT "end", bad\n' % (n, x, x)
    r = ctx.run(src, steps=4 * n + 100, timeout_ms=60000)
    ctx.orderly(r)
    if r.code != 0 or r.out != 'end0\n':
        raise Mismatch('RAND(%s) leaves its range: %r %r' % (x, r.out, r.err[:200]))
    ctx.validated += 1
    ctx.steps += n


BI = ['LENGTH("abc")', 'LEFT("abc", 2)', 'RIGHT("abc", 2)', 'MID("abcd", 2, 2)', 'TO_UPPER("aBc1")', 'TO_LOWER("aBc1")', 'NUM_TO_STR(2.5)', 'STR_TO_NUM("2.5")', 'IS_NUM("12")', 'IS_NUM("x")', "UCASE('q')", "LCASE('Q')", "ASC('A')", 'CHR(66)', 'INT(-1.5)', 'INT(7)',
      'NUM_TO_STR(7)', "LENGTH('x')", 'UCASE("z")', 'ASC("A")', 'LEFT(MID("abcdef", 2, 4), LENGTH("ab"))', 'STR_TO_NUM(NUM_TO_STR(1.25)) + 1', 'MID(TO_UPPER("hello"), INT(2.9), ASC(\'C\') - 64)', 'LEFT("abc", 4)', 'MID("abc", 0, 1)', 'RIGHT("", 1)']
PARAM = ['String', 'Char', 'x', 'y', 'Date', 'File', 's', 'n', 'c', 'i', 'Day']
SHADOW = [('INTEGER', '5'), ('STRING', '"glob"'), ('REAL', '9.5'), ('CHAR', "'g'"), ('ARR', None), ('CONST', '7'), ('ENUM', None), ('REC', None)]


def shadow(ctx, ty, val, where):
    """Names that the built-ins use internally are ordinary names for the program."""
    pre = ''
    for p in PARAM:
        if ty == 'ARR':
            pre += 'DECLARE %s : ARRAY[1:2] OF INTEGER\n' % p
        elif ty == 'CONST':
            pre += 'CONSTANT %s = %s\n' % (p, val)
        elif ty == 'ENUM':
            pre += 'TYPE T%s = (%s, o%s)\n' % (p, p, p)
        elif ty == 'REC':
            pre += 'TYPE T%s\nDECLARE %s : INTEGER\nENDTYPE\nDECLARE %s : T%s\n' % (p, p, p, p)
        else:
            pre += 'DECLARE %s : %s\n%s <- %s\n' % (p, ty, p, val)
    good = [e for e in BI[:-3]]
    body = ''.join('OUTPUT %s\n' % e for e in good)
    if val and ty not in ('CHAR',):
        body += ''.join('OUTPUT %s\n' % p for p in PARAM)
    if where == 'main':
        ctx.diff(pre + body)
    elif where == 'proc':
        ctx.diff(pre + 'PROCEDURE go()\n' + body + 'ENDPROCEDURE\nCALL go\n')
    else:
        ctx.diff('PROCEDURE go()\n' + pre + body + 'ENDPROCEDURE\nCALL go\n' if ty != 'REC' else pre + body)


def contexts(ctx, e):
    """A call in every expression context."""
    src = 'DECLARE a : ARRAY[0:9] OF STRING\nDECLARE s : STRING\nFUNCTION id(t : STRING) RETURNS STRING\nRETURN t\nENDFUNCTION\nFUNCTION w() RETURNS STRING\nRETURN "" & %s\nENDFUNCTION\nPROCEDURE p(t : STRING)\nOUTPUT "p", t\nENDPROCEDURE\n' % e
    src += 's <- "" & %s\nOUTPUT s\na[LENGTH(s) MOD 10] <- s\nOUTPUT a[LENGTH("" & %s) MOD 10], w(), id("" & %s)\nCALL p("" & %s)\nIF "" & %s = s THEN\nOUTPUT "same"\nENDIF\nFOR i <- 1 TO LENGTH("" & %s)\nOUTPUT MID(s, i, 1)\nNEXT i\n' % ((e,) * 6)
    src += 'CASE OF s\n"" & %s: OUTPUT "case"\nENDCASE\nk <- 0\nWHILE k < LENGTH("" & %s) DO\nk <- k + 1\nENDWHILE\nOUTPUT k, %s\n' % (e, e, e)
    ctx.diff(src)


ARGS = ['5', '-1', '2.5', 'TRUE', "'c'", '"st"', '""', '1/2/2003', 'ev', 'rv', 'pv', 'av', 'nosuch']
FNS = [('LENGTH', 1), ('LEFT', 2), ('RIGHT', 2), ('MID', 3), ('TO_UPPER', 1), ('TO_LOWER', 1), ('NUM_TO_STR', 1), ('STR_TO_NUM', 1), ('IS_NUM', 1), ('UCASE', 1), ('LCASE', 1), ('ASC', 1), ('CHR', 1), ('INT', 1)]
APRE = ['TYPE E = (ea, eb)', 'TYPE P = ^INTEGER', 'TYPE R\nDECLARE n : INTEGER\nENDTYPE', 'DECLARE ev : E', 'DECLARE rv : R', 'DECLARE pv : P', 'DECLARE av : ARRAY[1:2] OF STRING']


def argtypes():
    for f, n in FNS:
        for k in range(0, 4):
            if k == 3 and n != 3:
                continue
            for a in itertools.product(ARGS, repeat=k) if k < 3 else itertools.product(ARGS[:7], repeat=3):
                yield '%s(%s)' % (f, ', '.join(a))


def cases(tier):
    yield from scale.cases(tier, 'C17')
    yield from transport.cases(tier, 'C17')
    yield from rerun.cases(tier, 'C17')
    deep = tier != 'quick'
    yield from batches([], (e for s in strs(ALPHA, 4) for e in substr(s)), 300)
    yield from batches([], (e for s in ('', 'a', 'ab', 'a0Z', 'abcd') for e in substr_big(s)), 200)
    for c in chunks(range(256), 4):
        yield (chars, c)
    every = [chr(b) for b in range(256)]
    for c in chunks([x for b in every for x in (b, 'a' + b, b + 'Z', b + b + '1')], 16):
        yield (bytestr, c)
    for c in chunks(strs('z\n"\\\xe9\0', 3), 12):
        yield (bytestr, c)
    yield (bytestr, ['abcdefghijklmnopqrst', 'x' * 40, ' ' * 17])
    yield from batches([], (e for s in strs('0159.', 6 if not deep else 7) for e in conv(s)), 300)
    yield from batches([], (e for s in strs('0123456789.', 3 if not deep else 5) for e in conv(s)), 300)
    yield from batches([], (e for s in strs('a1-+e .nifx', 4 if not deep else 5) for e in conv(s)), 300)
    words = ['nan', 'NaN', 'inf', 'INF', 'Infinity', '-inf', '+nan', 'nan(1)', 'abc', '12x', 'x12', '1 2', '1.2.3', '1..2', '..', '-', '+', '--1', '1-', '1,5', '1/2', '5%', '$5', '1e', 'e1', '1e+', '.e1', '1_000', '12 ', 'TRUE', 'A', '0b1', '1f', '1L', '1.5f', '1\n', '\n', '5\t',
             '1\0', '\0', '\0001', '12\0x', '\xb2', '1\xa0', '\xff5']
    for c in chunks(words, 8):
        yield (convfile, c)
    long = ['123456789012345678', '999999999999999999', '9223372036854775807', '000000000000000000000000000012', '1000000000000000000', '12345678901234567890', '00', '007', '0.000000000000000001', '123456789.123456789', '0.1', '0.30000000000000004', '99999999999999999999999.5']
    for w in ('123456', '908172635445', '1000000000', '5'):
        long += [w[:i] + '.' + w[i:] for i in range(len(w) + 1)] + [w]
    for c in chunks([x for x in long if len(x.split('.')[0]) < 19 or '.' in x], 8):
        yield (convfile, c)
    yield (convfile, ['9' * k for k in range(1, 19)])
    for d in range(7):
        for lo, hi, st in [(0, 3000, 1), (0, 10 ** (d + 1) + 7, max(1, 10 ** (d + 1) // 2500)), (10 ** d - 300, 10 ** d + 300, 1), (123456789 - 500, 123456789 + 500, 1), (999999000, 1000000500, 7), (123456789012000, 123456789012500, 3), (0, 999999999999, 999999937)] + \
                ([(k * 2500, k * 2500 + 2499, 1) for k in range(1, 200)] if deep else [(k * 2500, k * 2500 + 2499, 1) for k in range(1, 5)]):
            yield (roundtrip, d, max(0, lo), hi, st)
    es = ['INT(%s)' % x for k in range(-240, 241) for x in ('%d / 8' % k,)] + ['INT(%s%s)' % (g, x) for g in ('', '-') for x in ('0.0', '0.999999999', '1.0000000001', '0.1', '0.5', '1.5', '2.5', '1000000.5', '4503599627370495.5', '9007199254740992.0', '123456789.000001', '7', '2147483647.9', '2147483648.0', '4294967295.5', '999999999999.25')]
    es += ['INT(x) <= x AND x < INT(x) + 1 AND x - INT(x) < 1.0']
    for c in chunks(es, 60):
        yield (num, c)
    for k in range(-50, 51):
        yield (num, ['x <- %d / 7' % k, 'INT(x)', 'INT(x) <= x', 'x < INT(x) + 1', 'INT(-x)', 'NUM_TO_STR(x)', 'NUM_TO_STR(%d)' % k, 'STR_TO_NUM(NUM_TO_STR(%d)) = %d' % (k, k)])
    RM = 2147483647
    for x in ['1', '2', '3', '7', '10', '100', '1000', '65536', '2147483646', '2147483647', '2147483648', '4294967296', '9007199254740992', '9223372036854775807']:
        v = int(x)
        b = sorted({0, 1, RM, RM - 1, RM // 2, RM // 2 + 1, (v - 1) % (RM + 1), v % (RM + 1), (v + 1) % (RM + 1), max(0, RM // v * v - 1), RM // v * v % (RM + 1)})
        yield (rand_one, x, [s for s in itertools.product(b, repeat=2)])
        yield (rand_one, x, [tuple([RM] * 20), tuple([0] * 20), tuple(b * 3)])
        yield (rand_many, x, 100000 if deep else 20000)
    yield (rand_one, '0', [(0, 0), (RM, RM)])
    for ty, v in SHADOW:
        for w in ('main', 'proc', 'local'):
            yield (shadow, ty, v, w)
    for e in BI[:-3]:
        yield (contexts, e)
    yield from batches(APRE, argtypes(), 120)
    yield from batches(['DECLARE s : STRING', 's <- "hello"', 'DECLARE k : INTEGER', 'k <- 2'], BI + ['LEFT(s, k)', 'MID(s, k, k)', 'RIGHT(s, k + 1)', 's', 'MID(s, LENGTH(s), 1)', 'MID(s, LENGTH(s), 2)', 'LEFT(s, LENGTH(s) + 1)', 'LENGTH(s & s)', 'TO_UPPER(s) & s'], 40)
