"""Sizes around the places where representations change (powers of two, of ten, one more and one less): long strings,
large arrays, many elements, entries, records, handles, parameters, deep nesting. Complements the small-scope
enumerations of the other generators; every size of the list is run."""
from gen import chain, session

SIZES = [1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001,
         16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000]
RULE = ('sizes: the constructs of the property at every size of a list of powers of two and of ten and their neighbours (string lengths, array elements, '
        'statements, calls, entries, lines, records, files, nesting depths), props/scale.py')
MODEL = dict(steps=3000000, depth=2500, cells=400000, max_string=1 << 20)
REAL = dict(steps=3000000, depth=2500, cells=420000, max_string=1 << 20, timeout_ms=60000, out_cap=1 << 20)


def upto(n, lo=1):
    return [s for s in SIZES if lo <= s <= n]


def big(ctx, src, kw):
    ctx.diff(src, model_kw=MODEL, **dict(REAL, **kw))


def bigrepl(ctx, entries):
    ctx.repl(session(entries), model_kw=MODEL, **REAL)


def runs(ctx, rs):
    chain(ctx, rs, model_kw=MODEL, **REAL)


def text(n):
    """Statements that leave a string of n distinguishable characters in s."""
    return 's <- "0123456789abcdefghijklmnopqrstuvwxyz"\nWHILE LENGTH(s) < %d DO\ns <- s & s & "x"\nENDWHILE\ns <- LEFT(s, %d)\n' % (n, n)


def c02(tier):
    for n in upto(300):
        for op in ('+', '-', '*', '/', '&', 'DIV', 'MOD', 'AND', 'OR'):
            if op in ('AND', 'OR'):
                terms = ['TRUE' if k % 3 else 'FALSE' for k in range(n)]
            else:
                terms = [str(k % 7 + 1) for k in range(n)]
            if op == '*':
                terms = [str(1 + (k % 37 == 0)) for k in range(n)]
            yield 'OUTPUT ' + (' %s ' % op).join(terms) + '\n'
        yield 'OUTPUT ' + '(' * n + '1' + ' + 2)' * n + '\n'
        yield 'OUTPUT ' + '- ' * n + '1\n'
        yield 'OUTPUT ' + 'NOT ' * n + 'TRUE\n'
        yield 'OUTPUT ' + ' + '.join('%d * %d' % (k, k + 1) for k in range(n)) + '\n'
        yield 'OUTPUT ' + '1 - (' * n + '1' + ')' * n + '\n'
    for n in upto(70000, 100):
        yield text(n) + 't <- s & "q"\nOUTPUT s = t, s <> t, s = LEFT(t, %d), LENGTH(s & t)\n' % n


def c03(tier):
    top = 20000 if tier == 'quick' else 100000
    for n in upto(top):
        yield 'c <- 0\nFOR i <- 1 TO %d\nc <- c + i\nNEXT i\nOUTPUT i, " ", c\n' % n
        yield 'c <- 0\nFOR i <- %d TO 1 STEP -1\nc <- c + 1\nNEXT i\nOUTPUT i, " ", c\n' % n
        yield 'c <- 0\nFOR i <- -%d TO %d STEP 3\nc <- c + 1\nNEXT i\nOUTPUT i, " ", c\n' % (n, n)
        yield 'c <- 0\nWHILE c < %d DO\nc <- c + 1\nIF c MOD 2 = 0 THEN\nCONTINUE\nENDIF\nENDWHILE\nOUTPUT c\n' % n
        yield 'c <- 0\nREPEAT\nc <- c + 1\nIF c = %d THEN\nBREAK\nENDIF\nUNTIL c > 200000\nOUTPUT c\n' % n
        yield 'c <- 0\nFOR i <- 1 TO %d\nFOR j <- 1 TO 3\nIF j = 2 THEN\nBREAK\nENDIF\nc <- c + 1\nNEXT j\nNEXT i\nOUTPUT c, " ", i, j\n' % (n // 2)
    for n in upto(1025):
        yield 'x <- %d\n' % n + 'CASE OF x\n' + ''.join('%d: OUTPUT "c%d"\n' % (k, k) for k in range(1, n + 1)) + 'OTHERWISE: OUTPUT "o"\nENDCASE\n'
        yield 'x <- %d\n' % (n + 1) + 'CASE OF x\n' + ''.join('%d: OUTPUT "c%d"\n' % (k, k) for k in range(1, n + 1)) + 'OTHERWISE: OUTPUT "o"\nENDCASE\n'
        if n < 600:
            yield 'x <- %d\nIF x = 0 THEN\nOUTPUT 0\n' % n + ''.join('ELSE IF x = %d THEN\nOUTPUT "e%d"\n' % (k, k) for k in range(1, n + 1)) + 'ELSE\nOUTPUT "o"\nENDIF\n'
        yield 'x <- 0\n' + 'x <- x + 1\n' * n + 'OUTPUT x\n'
        yield 'FOR k <- 1 TO 3\n' + 'OUTPUT k\n' * n + 'IF k = 2 THEN\nBREAK\nENDIF\nNEXT k\nOUTPUT "e", k\n'
    for n in upto(129):
        yield 'IF TRUE THEN\n' * n + 'OUTPUT "in"\n' + 'ENDIF\n' * n + 'OUTPUT "out"\n'
        yield ''.join('FOR i%d <- 1 TO 1\n' % k for k in range(n)) + 'OUTPUT "in"\nBREAK\n' + ''.join('NEXT i%d\nOUTPUT %d\n' % (k, k) for k in range(n - 1, -1, -1))
        yield ''.join('WHILE TRUE DO\n' for k in range(n)) + 'OUTPUT "in"\nBREAK\n' + ''.join('ENDWHILE\nOUTPUT %d\nBREAK\n' % k for k in range(n - 1, 0, -1)) + 'ENDWHILE\nOUTPUT "e"\n'


def c04(tier):
    for n in upto(129):
        ps = ['p%d' % k for k in range(n)]
        vs = ['v%d' % k for k in range(n)]
        for mode in ('', 'BYREF '):
            yield ('DECLARE %s : INTEGER\n' % ', '.join(vs) + ''.join('%s <- %d\n' % (v, k) for k, v in enumerate(vs)) + 'PROCEDURE q(%s)\n' % ', '.join((mode if k == 0 else '') + p + ' : INTEGER' for k, p in enumerate(ps)) +
                   ''.join('%s <- %s * 2 + %d\n' % (p, p, k) for k, p in enumerate(ps)) + 'OUTPUT ' + ', " ", '.join(ps) + '\nENDPROCEDURE\nCALL q(%s)\nOUTPUT ' % ', '.join(vs) + ', " ", '.join(vs) + '\n')
        yield ('FUNCTION f(%s) RETURNS INTEGER\nRETURN ' % ', '.join(p + ' : INTEGER' for p in ps) + ' - '.join(ps) + '\nENDFUNCTION\nOUTPUT f(%s)\n' % ', '.join(str(k * k) for k in range(n)))
        # one argument short, one too many
        for k in (n - 1, n + 1):
            yield 'PROCEDURE q(%s)\nOUTPUT "in"\nENDPROCEDURE\nOUTPUT "s"\nCALL q(%s)\n' % (', '.join(p + ' : INTEGER' for p in ps), ', '.join(['1'] * k))
        yield 'PROCEDURE q()\n' + ''.join('DECLARE l%d : INTEGER\nl%d <- %d\n' % (k, k, k) for k in range(n)) + 'OUTPUT l0, " ", l%d\nENDPROCEDURE\nCALL q\nCALL q\nOUTPUT l%d\n' % (n - 1, n - 1)
        yield ''.join('PROCEDURE q%d(x : INTEGER)\nOUTPUT "q%d", x\nENDPROCEDURE\n' % (k, k) for k in range(n)) + ''.join('CALL q%d(%d)\n' % (k, k) for k in range(n))
        yield ''.join('FUNCTION q%d(x : INTEGER) RETURNS INTEGER\nRETURN x + %d\nENDFUNCTION\n' % (k, k) for k in range(n)) + ''.join('OUTPUT q%d(%d)\n' % (k, k) for k in range(n))
    for n in upto(257 if tier == 'quick' else 513):
        yield 'FUNCTION s(n : INTEGER) RETURNS INTEGER\nDECLARE l : INTEGER\nl <- n * 2\nIF n = 0 THEN\nRETURN 0\nENDIF\nRETURN s(n - 1) + l\nENDFUNCTION\nOUTPUT s(%d)\n' % n
        yield 'DECLARE g : INTEGER\nPROCEDURE p(n : INTEGER, BYREF c : INTEGER)\nDECLARE l : INTEGER\nl <- n\nc <- c + 1\nIF n > 1 THEN\nCALL p(n - 1, c)\nENDIF\nc <- c + l\nENDPROCEDURE\nCALL p(%d, g)\nOUTPUT g\nCALL p(%d, g)\nOUTPUT g\n' % (n, n)
        yield 'DECLARE g : INTEGER\nPROCEDURE p(n : INTEGER)\nDECLARE g : INTEGER\ng <- n\nIF n > 1 THEN\nCALL p(n - 1)\nENDIF\nIF g <> n THEN\nOUTPUT "changed"\nENDIF\nENDPROCEDURE\ng <- 7\nCALL p(%d)\nOUTPUT g\n' % n
    for n in upto(10001, 100):
        yield 'DECLARE g : INTEGER\nPROCEDURE p(BYREF c : INTEGER)\nDECLARE l : INTEGER\nl <- l + 1\nc <- c + l\nENDPROCEDURE\nFUNCTION f(c : INTEGER) RETURNS INTEGER\nc <- c + 1\nRETURN c\nENDFUNCTION\nFOR i <- 1 TO %d\nCALL p(g)\ng <- f(g)\nNEXT i\nOUTPUT g\n' % n


def c05(tier):
    for n in upto(70000):
        line = ''.join(chr(97 + k % 26) for k in range(n))
        if n <= 20000:      # readline echoes longer lines in pieces
            yield 'DECLARE s : STRING\nINPUT s\nOUTPUT LENGTH(s), s\nINPUT t\nOUTPUT t\n', dict(stdin=line + '\nnext\n')
        yield text(n) + 'DECLARE t : STRING\nDECLARE a : ARRAY[1:2] OF STRING\nt <- s\na[2] <- t\ns <- ""\nOUTPUT a[2], LENGTH(t)\nDECLARE c : CHAR\nc <- a[2]\nOUTPUT "c", c\n'
    for n in upto(300):
        num = '1' * min(n, 18)
        yield 'DECLARE i : INTEGER\nDECLARE r : REAL\nINPUT i\nOUTPUT i\nINPUT r\nOUTPUT r\n', dict(stdin='0' * n + num + '\n' + '0' * n + '12.5' + '0' * n + '\n')
    for n in upto(513):
        yield ''.join('DECLARE v%d : %s\n' % (k, ('INTEGER', 'STRING', 'REAL')[k % 3]) for k in range(n)) + ''.join('v%d <- %s\n' % (k, (str(k), '"s%d"' % k, '%d.5' % k)[k % 3]) for k in range(n)) + ''.join('OUTPUT v%d\n' % k for k in range(n)) + 'v%d <- TRUE\n' % (n - 1)


def c06(tier):
    for n in upto(100000):
        d = 'DECLARE a, b : ARRAY[1:%d] OF INTEGER\n' % n
        if n <= 70000:
            yield d + 'a[1] <- 1\na[%d] <- 2\na[%d] <- a[%d] + 5\nb <- a\na[%d] <- 9\nb[1] <- 8\nOUTPUT a[1], " ", a[%d], " ", a[%d], " ", b[1], " ", b[%d], " ", b[%d]\nOUTPUT a[%d]\n' % (n, (n + 1) // 2, (n + 1) // 2, n, (n + 1) // 2, n, (n + 1) // 2, n, n + 1)
        yield 'DECLARE a : ARRAY[-%d:0] OF INTEGER\na[0] <- 1\na[-%d] <- a[-%d] + 2\nOUTPUT a[0], " ", a[-%d]\nOUTPUT a[-%d]\n' % (n - 1, n - 1, n - 1, n - 1, n)
        if n <= 20000:
            yield d.replace(', b', '') + 'FOR i <- 1 TO %d\na[i] <- i\nNEXT i\nx <- 0\nFOR i <- 1 TO %d\nIF a[i] <> i THEN\nOUTPUT "bad", i\nENDIF\nx <- x + a[i]\nNEXT i\nOUTPUT x\n' % (n, n)
        if n > 1 and n <= 70000:
            # one dimension long, the other two
            yield 'DECLARE a : ARRAY[1:%d, 1:2] OF INTEGER\na[%d, 1] <- 1\na[1, 2] <- 2\na[%d, 2] <- 3\na[1, 1] <- 4\nOUTPUT a[%d, 1], a[1, 2], a[%d, 2], a[1, 1], a[%d, 1]\nOUTPUT a[1, 3]\n' % (n, n, n, n, n, n - 1)
            yield 'DECLARE a : ARRAY[0:1, 1:%d] OF INTEGER\na[0, %d] <- 1\na[1, 1] <- 2\na[1, %d] <- 3\na[0, 1] <- 4\nOUTPUT a[0, %d], a[1, 1], a[1, %d], a[0, 1], a[1, %d]\nOUTPUT a[0, %d]\n' % (n, n, n, n, n, n - 1, n + 1)
            yield 'DECLARE a : ARRAY[1:%d] OF STRING\na[%d] <- "last"\na[1] <- "first"\nOUTPUT a[%d], a[1], a[2]\n' % (n, n, n)
            yield 'PROCEDURE q(BYREF x : INTEGER)\nx <- x + 3\nENDPROCEDURE\nTYPE P = ^INTEGER\nDECLARE p : P\nDECLARE a : ARRAY[1:%d] OF INTEGER\nCALL q(a[%d])\np <- ^a[%d]\np^ <- p^ + 4\nOUTPUT a[%d], a[1]\n' % (n, n, n, n)
    for n in (131071, 131072, 131073, 140000):
        yield 'DECLARE a, b : ARRAY[1:%d] OF INTEGER\na[1] <- 1\na[%d] <- 2\na[65536] <- 3\na[65537] <- 4\nb <- a\na[%d] <- 9\na[65536] <- 8\nOUTPUT b[1], b[%d], b[65536], b[65537], b[2], a[%d]\nOUTPUT b[%d]\n' % (n, n, n, n, n, n + 1)
        yield 'DECLARE a : ARRAY[1:%d, 1:2] OF INTEGER\na[%d, 1] <- 1\na[%d, 2] <- 2\na[1, 1] <- 3\na[32769, 1] <- 4\nOUTPUT a[%d, 1], a[%d, 2], a[1, 1], a[32769, 1], a[1, 2]\n' % ((n // 2 + 1,) * 5)
    for n in range(1, 14):
        ix = lambda v: ', '.join([v] * n)
        yield 'DECLARE a, b : ARRAY[%s] OF INTEGER\na[%s] <- 1\na[%s] <- 2\nb <- a\na[%s] <- 3\n' % (ix('0:1'), ix('0'), ix('1'), ix('1')) + ''.join(
            'a[%s] <- %d\n' % (', '.join('1' if j == k else '0' for j in range(n)), 10 + k) for k in range(n)) + ''.join('OUTPUT a[%s]\n' % ', '.join('1' if j == k else '0' for j in range(n)) for k in range(n)) + \
            'OUTPUT a[%s], b[%s], b[%s]\nOUTPUT a[%s]\n' % (ix('0'), ix('1'), ix('0'), ', '.join(['0'] * (n - 1) + ['2']))
    for n in upto(300):
        yield ''.join('DECLARE a%d : ARRAY[1:2] OF INTEGER\na%d[2] <- %d\n' % (k, k, k) for k in range(n)) + ''.join('OUTPUT a%d[2]\n' % k for k in range(n))


def c07(tier):
    for n in upto(257):
        d = 'TYPE R\n' + ''.join('DECLARE f%d : %s\n' % (k, ('INTEGER', 'STRING', 'ARRAY[1:2] OF INTEGER')[k % 3]) for k in range(n)) + 'ENDTYPE\nDECLARE a, b : R\nDECLARE ra : ARRAY[1:2] OF R\n'
        acc = ['.f%d%s' % (k, '[2]' if k % 3 == 2 else '') for k in range(n)]
        val = [('"t%d"' if k % 3 == 1 else '%d') % k for k in range(n)]
        yield (d + ''.join('a%s <- %s\n' % x for x in zip(acc, val)) + 'b <- a\nra[2] <- b\n' + ''.join('a%s <- %s\n' % (x, '"z"' if k % 3 == 1 else '-1') for k, x in enumerate(acc)) +
               'FUNCTION id(x : R) RETURNS R\nRETURN x\nENDFUNCTION\nra[1] <- id(ra[2])\n' + ''.join('OUTPUT b%s, " ", ra[1]%s, " ", a%s\n' % (x, x, x) for x in acc))
    for n in upto(33):
        d = 'TYPE R0\nDECLARE v : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\n' + ''.join('TYPE R%d\nDECLARE n : R%d\nDECLARE k : INTEGER\nENDTYPE\n' % (k, k - 1) for k in range(1, n + 1))
        yield (d + 'DECLARE x, y : R%d\nx%s.v <- 5\nx%s.a[2] <- 6\nx.k <- 7\ny <- x\nx%s.v <- 8\ny%s.a[2] <- 9\nOUTPUT x%s.v, x%s.a[2], x.k, y%s.v, y%s.a[2], y.k\n' % ((n,) + ('.n' * n,) * 8))
    for n in upto(10001):
        yield ('TYPE R\nDECLARE v : INTEGER\nDECLARE s : STRING\nENDTYPE\nDECLARE a, b : ARRAY[1:%d] OF R\na[%d].v <- 3\na[1].s <- "one"\nb <- a\nb[%d].v <- 4\nb[1].s <- "uno"\nOUTPUT a[%d].v, a[1].s, b[%d].v, b[1].s\na[1] <- b[%d]\nb[%d].v <- 5\nOUTPUT a[1].v\n' %
               (n, n, n, n, n, n, n))
        yield ('TYPE R\nDECLARE g : ARRAY[1:%d] OF INTEGER\nDECLARE v : INTEGER\nENDTYPE\nDECLARE a, b : R\nFUNCTION f(x : R) RETURNS R\nx.g[%d] <- x.g[%d] + 1\nRETURN x\nENDFUNCTION\na.g[%d] <- 3\na.g[1] <- a.g[1] + 2\nb <- a\nb.g[%d] <- 4\nb.v <- 9\nOUTPUT a.g[1], a.g[%d], b.g[1], b.g[%d], a.v\na <- f(b)\n'
               'OUTPUT a.g[%d], b.g[%d]\n' % ((n,) * 9))


def c08(tier):
    for n in upto(513):
        yield ''.join('CONSTANT c%d = %d\n' % (k, k) for k in range(n)) + 'x <- 0\n' + ''.join('x <- x * 3 MOD 1000003 + c%d\n' % k for k in range(n)) + 'OUTPUT x, c0, c%d\nc%d <- 5\n' % (n - 1, n - 1)
    for n in upto(70000):
        yield text(n) + 'CONSTANT k = "lit"\nCONSTANT t = 5\nPROCEDURE q(BYREF x : STRING)\nx <- "changed"\nENDPROCEDURE\nOUTPUT k, t, LENGTH(s)\nCALL q(k)\nOUTPUT k\n'
    for n in upto(257):
        # handed down by reference through n calls
        yield 'CONSTANT k = 5\nPROCEDURE q(n : INTEGER, BYREF x : INTEGER)\nIF n > 0 THEN\nCALL q(n - 1, x)\nELSE\nOUTPUT "at", x\nx <- 6\nENDIF\nENDPROCEDURE\nOUTPUT k\nCALL q(%d, k)\nOUTPUT k\n' % n


def c09(tier):
    for n in upto(65):
        d = 'TYPE P1 = ^INTEGER\n' + ''.join('TYPE P%d = ^P%d\n' % (k, k - 1) for k in range(2, n + 1)) + ''.join('DECLARE q%d : P%d\n' % (k, k) for k in range(1, n + 1))
        yield d + 'x <- 5\nq1 <- ^x\n' + ''.join('q%d <- ^q%d\n' % (k, k - 1) for k in range(2, n + 1)) + 'OUTPUT q%d%s\nq%d%s <- 9\nOUTPUT x\ny <- 7\nq1 <- ^y\nOUTPUT q%d%s\n' % ((n, '^' * n) * 3)
    for n in upto(257):
        # pointers to locals of enclosing activations, used n calls deeper; and after n further calls when they are dead
        yield ('TYPE P = ^INTEGER\nDECLARE g : P\nPROCEDURE deep(n : INTEGER, p : P)\nDECLARE l : INTEGER\nl <- n\nIF n > 0 THEN\nCALL deep(n - 1, p)\nELSE\np^ <- p^ + 1\ng^ <- g^ + 10\nENDIF\nENDPROCEDURE\nPROCEDURE top()\nDECLARE l : INTEGER\nl <- 3\ng <- ^l\nCALL deep(%d, g)\nOUTPUT l, g^\nENDPROCEDURE\n'
               'CALL top\nCALL top\nOUTPUT g^\n' % n)
        yield ('TYPE P = ^INTEGER\nDECLARE g : P\nPROCEDURE mk()\nDECLARE l : INTEGER\nl <- 3\ng <- ^l\nENDPROCEDURE\nPROCEDURE noise(k : INTEGER)\nDECLARE l : INTEGER\nl <- 55\nIF k = %d THEN\nOUTPUT g^\ng^ <- 9\nENDIF\nENDPROCEDURE\nCALL mk\nOUTPUT "s"\nFOR i <- 1 TO %d\nCALL noise(i)\nNEXT i\nOUTPUT "e"\n' % (n, n))
        yield ('TYPE P = ^INTEGER\nPROCEDURE rec(n : INTEGER, p : P)\nDECLARE l : INTEGER\nDECLARE q : P\nl <- p^ + 1\nq <- ^l\nIF n > 0 THEN\nCALL rec(n - 1, q)\nENDIF\np^ <- p^ + l\nENDPROCEDURE\nDECLARE g : INTEGER\nDECLARE h : P\nh <- ^g\nCALL rec(%d, h)\nOUTPUT g\n' % min(n, 40))
        yield 'TYPE P = ^INTEGER\nDECLARE ps : ARRAY[1:%d] OF P\nDECLARE xs : ARRAY[1:%d] OF INTEGER\nFOR i <- 1 TO %d\nps[i] <- ^xs[i]\nNEXT i\nFOR i <- 1 TO %d\nps[i]^ <- i\nNEXT i\nc <- 0\nFOR i <- 1 TO %d\nc <- c * 2 MOD 10007 + xs[i]\nNEXT i\nOUTPUT c, xs[%d]\n' % ((n,) * 6)
    for n in sorted(set(upto(10001, 500)) | {253, 254, 255, 256, 257, 258, 65532, 65533, 65534, 65535, 65536, 65537, 65538}):
        yield ('TYPE P = ^INTEGER\nDECLARE g : P\nPROCEDURE mk()\nDECLARE l : INTEGER\nl <- 3\ng <- ^l\nENDPROCEDURE\nPROCEDURE noise()\nDECLARE l : INTEGER\nl <- 55\nENDPROCEDURE\nPROCEDURE use()\nDECLARE l : INTEGER\nl <- 56\nOUTPUT "use"\nOUTPUT g^\nENDPROCEDURE\nCALL mk\nFOR i <- 1 TO %d\nCALL noise\nNEXT i\n'
               'CALL use\n' % n)


def c10(tier):
    for n in upto(70000):
        for w in (' ', '\t'):
            yield w * n + 'OUTPUT 1' + w * n + '\n' + 'IF' + w * n + 'TRUE THEN\nOUTPUT' + w * n + '2,' + w * n + '3\nENDIF' + w * n + '\nx <- zz\n'
        yield 'OUTPUT 1 // ' + 'c' * n + '\n//' + '/' * n + '\n// "' + "'" * n + '\nOUTPUT 2\nOUTPUT zz\n'
        yield '\n' * n + 'OUTPUT 1' + '\n' * n + 'IF TRUE THEN' + '\n' * n + 'OUTPUT 2' + '\n' * n + 'ENDIF' + '\n' * n + 'OUTPUT zz' + '\n' * n
        if n <= 10000:
            yield '// c\n' * n + 'OUTPUT 1\r\n' + '\r\n' * n + 'OUTPUT zz\r\n'
            yield 'x <- 5\nCASE OF x\n' + '\n' * n + '1: OUTPUT 1\n' + '// c\n' * n + '5:' + '\n' * n + 'OUTPUT 5' + '\n' * n + 'OTHERWISE: OUTPUT 6\nENDCASE\nTYPE R\n' + '\n' * n + 'DECLARE n : INTEGER\n' + '\n// x\n' * n + 'ENDTYPE\nOUTPUT zz\n'


def c11(tier):
    for n in upto(10001):
        yield 'OUTPUT "x"\n' * min(n, 3) + '\n' * n + 'y <- zz\n'
        yield 'OUTPUT "x"\n' + '\n' * n + 'y <- \n'
        yield 'OUTPUT "x"\n' + 'a <- 1\n' * n + 'b <- a + zz\n'
        yield 'OUTPUT "x"\n' + 'a <- 1\n' * n + 'b <- a + @\n'
        yield 'OUTPUT "%s", zz\n' % ('x' * n)
        yield 'OUTPUT "%s" + \n' % ('x' * n)
        yield 'OUTPUT 1\nOUTPUT "%s\n' % ('x' * n)
        yield '%s <- %s\n' % ('v' * n, 'w' * n)
    for n in upto(257):
        yield 'PROCEDURE p(n : INTEGER)\nIF n = 0 THEN\nx <- 1 DIV n\nENDIF\nCALL p(n - 1)\nENDPROCEDURE\nOUTPUT "s"\n\nCALL p(%d)\n' % n
        yield 'FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN "no"\nENDIF\nIF n MOD 2 = 0 THEN\nRETURN f(n - 1)\nENDIF\nRETURN 1 + f(n - 1)\nENDFUNCTION\nOUTPUT "s"\n\nOUTPUT f(%d)\n' % n
    for n in upto(100):
        yield ''.join('PROCEDURE p%d()\n%s%s\nENDPROCEDURE\n' % (k, '\n' * (k % 3), 'CALL p%d' % (k - 1) if k else 'OUTPUT zz') for k in range(n)) + 'CALL p%d\n' % (n - 1)
        # n statements of which the last is wrong, at every nesting depth
        yield 'IF TRUE THEN\n' * n + 'OUTPUT "x"\nOUTPUT zz\n' + 'ENDIF\n' * n
        yield 'IF TRUE THEN\n' * n + 'OUTPUT "x"\n' + 'ENDIF\n' * (n - 1)
        yield 'IF TRUE THEN\n' * n + 'OUTPUT "x"\n' + 'ENDIF\n' * (n + 1)


def c12(tier):
    """Lists of entries."""
    for n in upto(1025):
        yield ['x <- %d' % k for k in range(n)] + ['x', 'y <- zz', 'x']
        yield ['zz'] * min(n, 300) + ['5']
        yield ['DECLARE v%d : INTEGER' % k for k in range(min(n, 300))] + ['v0', 'v%d' % (min(n, 300) - 1), 'PROCEDURE p()\nv0 <- v0 + 1\nENDPROCEDURE'] + ['CALL p'] * n + ['v0']
        yield ['FOR i <- 1 TO 2\n' + 'OUTPUT i\n' * n + 'NEXT i', 'i', 'FOR i <- 1 TO 2\n' + 'OUTPUT i\n' * n + 'OUTPUT zz\nNEXT i', 'i']
        yield ['x <- 1', 'IF TRUE THEN\n' + 'x <- x + 1\n' * n + 'ENDIF', 'x', 'x <- (', 'x']
    for n in upto(20000):
        yield ['s <- "%s"' % ('x' * n), 's', 'LENGTH(s)', '%s <- 5' % ('v' * n), 'v' * n, '1 + zz' + ' ' * n, 's & "%s' % ('y' * n), 'LENGTH(s)']


def c13(tier):
    io = 'OPENFILE "f" FOR RANDOM\n%sCLOSEFILE "f"\n'
    for n in upto(100000):
        w = text(n) + 'DECLARE i : INTEGER\ni <- 77\n' + io % 'PUTRECORD "f", s\nSEEK "f", 2\nPUTRECORD "f", i\nSEEK "f", 3\nPUTRECORD "f", s\nSEEK "f", 1\nGETRECORD "f", s\nOUTPUT LENGTH(s)\n'
        r = 'DECLARE s, t : STRING\nDECLARE i : INTEGER\n' + io % 'GETRECORD "f", s\nSEEK "f", 2\nGETRECORD "f", i\nSEEK "f", 3\nGETRECORD "f", t\n' + 'OUTPUT LENGTH(s), " ", i, " ", s = t\nOUTPUT s\n'
        yield [w, r]
        if n <= 10001:
            w = 'DECLARE a : ARRAY[1:%d] OF INTEGER\nFOR i <- 1 TO %d\na[i] <- i * 7 MOD 1000\nNEXT i\n' % (n, n)
            g = 'DECLARE b : ARRAY[1:%d] OF INTEGER\n' % n + io % 'GETRECORD "f", b\n' + 'c <- 0\nFOR i <- 1 TO %d\nc <- (c * 3 + b[i]) MOD 1000003\nNEXT i\nOUTPUT c, " ", b[1], " ", b[%d]\n' % (n, n)
            yield [w + io % 'PUTRECORD "f", a\n' + g, g]
            w = 'DECLARE s : STRING\nDECLARE a : ARRAY[1:%d] OF STRING\n' % n + text(20) + 'FOR i <- 1 TO %d\na[i] <- LEFT(s, i MOD 20)\nNEXT i\n' % n
            g = 'DECLARE b : ARRAY[1:%d] OF STRING\n' % n + io % 'GETRECORD "f", b\n' + 'OUTPUT b[1], b[%d], b[%d]\n' % (n, (n + 1) // 2)
            if n <= 2049:
                yield [w + io % 'PUTRECORD "f", a\n' + g, g]
    for n in upto(257):
        d = 'TYPE R\n' + ''.join('DECLARE f%d : %s\n' % (k, ('INTEGER', 'STRING', 'ARRAY[1:2] OF CHAR', 'REAL', 'BOOLEAN', 'DATE')[k % 6]) for k in range(n)) + 'ENDTYPE\nDECLARE a, b : R\n'
        acc = ['.f%d%s' % (k, '[2]' if k % 6 == 2 else '') for k in range(n)]
        val = [('%d' % k, '"t%d"' % k, "'%s'" % chr(97 + k % 26), '%d.25' % k, 'TRUE', '1/2/%d' % (2000 + k))[k % 6] for k in range(n)]
        g = io % 'GETRECORD "f", b\n' + ''.join('OUTPUT b%s\n' % x for x in acc)
        yield [d + ''.join('a%s <- %s\n' % x for x in zip(acc, val)) + io % 'PUTRECORD "f", a\n' + g, d + g]


def c14(tier):
    for n in upto(1025 if tier == 'quick' else 4097):
        chk = 'DECLARE x : INTEGER\nOPENFILE "f" FOR RANDOM\nc <- 0\nFOR i <- 1 TO %d\nSEEK "f", i\nGETRECORD "f", x\nc <- (c * 31 + x) MOD 1000003\nNEXT i\nOUTPUT c\nSEEK "f", %d\nOUTPUT "at end"\nGETRECORD "f", x\n' % (n, n + 1)
        w = 'DECLARE x : INTEGER\nOPENFILE "f" FOR RANDOM\nFOR i <- 1 TO %d\nSEEK "f", i\nx <- i * i\nPUTRECORD "f", x\nNEXT i\n' % n
        yield [w + 'CLOSEFILE "f"\n', chk]
        yield [w + 'x <- -5\nSEEK "f", %d\nPUTRECORD "f", x\nx <- -6\nSEEK "f", 1\nPUTRECORD "f", x\n' % n, chk]
        yield [w, 'DECLARE x : INTEGER\nx <- -7\nOPENFILE "f" FOR RANDOM\nSEEK "f", %d\nPUTRECORD "f", x\nCLOSEFILE "f"\n' % ((n + 1) // 2), chk]
        yield [w, 'DECLARE x : STRING\nx <- "longer than before"\nOPENFILE "f" FOR RANDOM\nSEEK "f", %d\nPUTRECORD "f", x\nSEEK "f", 1\nGETRECORD "f", x\n' % n, 'DECLARE x : STRING\nOPENFILE "f" FOR RANDOM\nSEEK "f", %d\nGETRECORD "f", x\nOUTPUT x\nSEEK "f", %d\n' % (n, n + 2)]
        if n <= 129:
            # close and reopen between all writes
            yield ['DECLARE x : INTEGER\nFOR i <- 1 TO %d\nOPENFILE "f" FOR RANDOM\nSEEK "f", i\nx <- i * 3\nPUTRECORD "f", x\nCLOSEFILE "f"\nNEXT i\n' % n, chk]


def c15(tier):
    read = 'OPENFILE "f" FOR READ\nc <- 0\nn <- 0\nWHILE NOT EOF("f") DO\nREADFILE "f", l\nn <- n + 1\nc <- (c * 7 + LENGTH(l)) MOD 1000003\nENDWHILE\nOUTPUT n, " ", c, " ", l\nCLOSEFILE "f"\n'
    for n in upto(20000 if tier == 'quick' else 70000):
        w = 'OPENFILE "f" FOR WRITE\nFOR i <- 1 TO %d\nWRITEFILE "f", i\nNEXT i\nCLOSEFILE "f"\n' % n
        yield [w + read, 'OPENFILE "f" FOR APPEND\nWRITEFILE "f", "more"\n', read]
    for n in upto(100000):
        yield [text(n) + 'OPENFILE "f" FOR WRITE\nWRITEFILE "f", s\nWRITEFILE "f", ""\nWRITEFILE "f", s & "y"\nCLOSEFILE "f"\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", LEFT(s, %d)\nCLOSEFILE "f"\n' % (n - 1) + read, read]
        if n <= 513:
            yield ['FOR i <- 1 TO %d\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", i\nCLOSEFILE "f"\nNEXT i\n' % n + read]


def c16(tier):
    for n in upto(257):
        fs = ['g%d' % k for k in range(n)]
        o = ''.join('OPENFILE "%s" FOR %s\n' % (f, ('WRITE', 'RANDOM', 'APPEND')[k % 3 if k % 3 != 2 else 0]) for k, f in enumerate(fs))
        w = 'DECLARE x : INTEGER\nx <- 5\n' + o + ''.join(('WRITEFILE "%s", "l%d"\n' % (f, k) if k % 3 != 1 else 'PUTRECORD "%s", x\n' % f) for k, f in enumerate(fs))
        yield [w + 'OPENFILE "g0" FOR READ\n']
        yield [w + ''.join('CLOSEFILE "%s"\n' % f for f in fs) + 'CLOSEFILE "g0"\n']
        yield [w + ''.join('CLOSEFILE "%s"\n' % f for f in reversed(fs)) + 'OPENFILE "g%d" FOR %s' % (n - 1, 'RANDOM\nGETRECORD "g%d", x\nOUTPUT x\n' % (n - 1) if (n - 1) % 3 == 1 else 'READ\nREADFILE "g%d", z\nOUTPUT z\n' % (n - 1))]
        yield [w + 'CLOSEFILE "g%d"\nWRITEFILE "g0", "again"\nWRITEFILE "g%d", "closed"\n' % (n // 2, n // 2)]
        yield [w + 'OUTPUT zz\n', 'OPENFILE "g%d" FOR RANDOM\nOUTPUT 1\n' % (n - 1) if (n - 1) % 3 == 1 else 'OPENFILE "g%d" FOR READ\nOUTPUT EOF("g%d")\n' % (n - 1, n - 1)]
    for n in upto(1025):
        yield ['FOR i <- 1 TO %d\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", i\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\nCLOSEFILE "f"\nNEXT i\nOUTPUT l\nCLOSEFILE "f"\n' % n]
    for n in upto(255):
        yield ['OPENFILE "%s" FOR WRITE\nWRITEFILE "%s", "x"\nCLOSEFILE "%s"\nOPENFILE "%s" FOR READ\nREADFILE "%s", l\nOUTPUT l\nOPENFILE "%s" FOR READ\n' % (('n' * n,) * 5 + ('n' * (n - 1) + 'm',))]
    for n in upto(100000):
        yield [text(n) + 'OPENFILE "f" FOR WRITE\nWRITEFILE "f", s\nOUTPUT zz\n']
        yield [text(n) + 'OPENFILE "f" FOR WRITE\nWRITEFILE "f", s\nWRITEFILE "f", s\n', 'OPENFILE "f" FOR READ\nREADFILE "f", l\nREADFILE "f", m\nOUTPUT LENGTH(l), l = m, EOF("f")\n']


def c17(tier):
    for n in upto(100000):
        pre = text(n)
        ks = sorted({0, 1, 2, n // 2, max(n - 2, 0), max(n - 1, 0), n})
        s = pre + 'OUTPUT LENGTH(s)\nt <- TO_UPPER(s)\nOUTPUT LENGTH(t), TO_LOWER(t) = s, t = s, RIGHT(t, 1), LEFT(t, 1)\n'
        for k in ks:
            s += 'OUTPUT LEFT(s, %d) & RIGHT(s, LENGTH(s) - %d) = s, LENGTH(RIGHT(s, %d)), RIGHT(LEFT(s, %d), %d)\n' % (k, k, k, k, min(k, 3))
            for m in sorted({0, 1, n - k}):
                if k + 1 <= n and m <= n - k:
                    s += 'OUTPUT LENGTH(MID(s, %d, %d)), RIGHT(MID(s, %d, %d), %d)\n' % (k + 1, m, k + 1, m, min(m, 2))
        yield s + 'OUTPUT "end"\nOUTPUT LEFT(s, %d)\n' % (n + 1)
        yield pre + 'OUTPUT RIGHT(s, %d)\n' % (n + 1)
        yield pre + 'OUTPUT MID(s, %d, 1)\n' % (n + 1)
        yield pre + 'OUTPUT MID(s, %d, 2)\n' % n
        yield pre + 'OUTPUT MID(s, 1, %d)\n' % (n + 1)
    for n in upto(1025):
        z = '0' * n
        yield 'OUTPUT IS_NUM("%s"), INTEGER("%s7"), REAL("%s.5"), STR_TO_NUM("%s12%s"), IS_NUM("%s."), IS_NUM("%s.%s."), STR_TO_NUM("0.5%s"), INTEGER("%sx")\n' % (z, z, z, z, '', z, z, z, z, z)


def c19(tier):
    for n in upto(1025):
        d = 'TYPE E = (%s)\nDECLARE e, f : E\n' % ', '.join('x%d' % k for k in range(n))
        yield d + 'e <- x%d\nOUTPUT e, " ", e + 1, " ", e - 1, " ", x0 - 1, " ", x0 + %d, " ", e + %d, " ", e - %d, " ", x0 - %d\nf <- x0\nOUTPUT f = e, f <> e, f - 1 = e, e + 1 = f\n' % (n - 1, n, n - 1, n - 1, n - 1)
        if n <= 257:
            yield d + 'FOR i <- 0 TO %d\nf <- x0 + i\ne <- e + 1\nOUTPUT f, " ", e, " ", f - i = x0\nNEXT i\n' % (n + 1)
            yield ''.join('TYPE E%d = (a%d, b%d)\nDECLARE v%d : E%d\n' % ((k,) * 5) for k in range(n)) + ''.join('v%d <- b%d\n' % (k, k) for k in range(n)) + 'OUTPUT v0, v%d\nv0 <- b%d\nOUTPUT v0\n' % (n - 1, n - 1)
            yield d + 'OPENFILE "f" FOR RANDOM\ne <- x%d\nPUTRECORD "f", e\nGETRECORD "f", f\nOUTPUT f\n' % (n - 1)


def c20(tier):
    for n in upto(513):
        clean = 'DECLARE x : INTEGER\n' + 'x <- x + 1\n' * n + 'OUTPUT x\n'
        for bad in ('', 'y <- 5\n', 'INPUT y\n', 'WHILE TRUE DO\nBREAK\nENDWHILE\n', 'x <- INTEGER("5")\n', 'IF FALSE THEN\nx <- 1\nELSE IF TRUE THEN\nx <- 2\nENDIF\n'):
            for p in (False, '-p'):
                yield clean + bad + 'OUTPUT "end"\n', dict(pedantic=p)


def cases(tier, prop):
    f = globals()[prop.lower()]
    for c in f(tier):
        if prop == 'C12':
            yield (bigrepl, c)
        elif prop in ('C13', 'C14', 'C15', 'C16'):
            yield (runs, c)
        else:
            src, kw = c if isinstance(c, tuple) else (c, {})
            yield (big, src, dict(kw, lines=prop in ('C10', 'C11')))
