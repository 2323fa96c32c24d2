"""C08: a CONSTANT never changes after its definition."""
import itertools

from gen import batch, prog, session
import names
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='constants of every type, scope and definition form x every writing statement (assignment, FOR, INPUT, READFILE, GETRECORD, BYREF chains, pointers, elements and '
         'fields of constant records, redeclaration) in REPL sessions that re-read every constant after each attempt; all sequences of attempts up to the depth; '
         'the same attempts in file mode inside procedures, functions and loops',
    assumptions=[])

PRE = ['TYPE E = (ea, eb, ec)', 'TYPE PI = ^INTEGER', 'TYPE PS = ^STRING', 'TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', 'TYPE PR = ^R',
       'DECLARE v, w : INTEGER', 'DECLARE s : STRING', 'DECLARE p, p2 : PI', 'DECLARE ps : PS', 'DECLARE r : R', 'DECLARE pr : PR', 'DECLARE e : E', 'v <- 3', 'r.n <- 4', 'r.a[2] <- 5', 's <- "s"',
       'CONSTANT ci = 7', 'CONSTANT cx = 2.5', 'CONSTANT cb = TRUE', "CONSTANT cc = 'q'", 'CONSTANT cs = "const"', 'CONSTANT cn = -4', 'CONSTANT cd <- 1/2/2000', 'CONSTANT ce = v + 1', 'CONSTANT cr = r',
       'CONSTANT cv = v', 'CONSTANT cen = eb',
       'PROCEDURE wi(BYREF x : INTEGER)\nx <- x + 1\nENDPROCEDURE', 'PROCEDURE wi2(BYREF x : INTEGER)\nCALL wi(x)\nENDPROCEDURE', 'PROCEDURE wf(BYREF x : INTEGER)\nFOR x <- 1 TO 3\nNEXT x\nENDPROCEDURE',
       'PROCEDURE wp(BYREF x : INTEGER)\np <- ^x\np^ <- 50\nENDPROCEDURE', 'PROCEDURE win(BYREF x : INTEGER)\nINPUT x\nENDPROCEDURE', 'PROCEDURE ws(BYREF x : STRING)\nx <- x & "!"\nENDPROCEDURE',
       'PROCEDURE wr(BYREF x : R)\nx.n <- 60\nx.a[1] <- 61\nENDPROCEDURE', 'PROCEDURE wv(x : INTEGER)\nx <- x + 1\nOUTPUT x\nENDPROCEDURE', 'PROCEDURE wrv(x : R)\nx.n <- x.n + 1\nx.a[1] <- 9\nOUTPUT x.n, x.a[1]\nENDPROCEDURE',
       'PROCEDURE glob()\nci <- 9\nENDPROCEDURE', 'PROCEDURE globs()\ncs <- "changed"\nENDPROCEDURE', 'PROCEDURE globf()\nFOR ci <- 1 TO 2\nNEXT\nENDPROCEDURE',
       'PROCEDURE loc()\nDECLARE ci : INTEGER\nci <- 99\nOUTPUT ci\nENDPROCEDURE', 'PROCEDURE locc()\nCONSTANT ci = 55\nOUTPUT ci\nci <- 56\nENDPROCEDURE',
       'PROCEDURE rd(BYREF x : INTEGER)\nOUTPUT x\nENDPROCEDURE', 'FUNCTION fr(BYREF x : INTEGER) RETURNS INTEGER\nx <- x * 2\nRETURN x\nENDFUNCTION',
       'PROCEDURE two(BYREF x : INTEGER, BYREF y : INTEGER)\ny <- x\nx <- 70\nENDPROCEDURE',
       'PROCEDURE gr(BYREF x : INTEGER)\nGETRECORD "r.dat", x\nENDPROCEDURE', 'PROCEDURE rf(BYREF x : STRING)\nREADFILE "t.txt", x\nENDPROCEDURE',
       'OPENFILE "t.txt" FOR READ', 'OPENFILE "r.dat" FOR RANDOM', 'SEEK "r.dat", 1', 'PUTRECORD "r.dat", v', 'SEEK "r.dat", 1']
DUMP = ['OUTPUT ci, ",", cx, ",", cb, ",", cc, ",", cs, ",", cn, ",", cd, ",", ce, ",", cr.n, ",", cr.a[1], ",", cr.a[2], ",", cv, ",", cen, ",", v, ",", r.n, ",", r.a[1], ",", s, ",", w', 'ci']
FILES = [('f', 0, 't.txt', 'l1\nl2\nl3\nl4\nl5\nl6\nl7\nl8\n')]

ALLC = ['ci', 'cx', 'cb', 'cc', 'cs', 'cn', 'cd', 'ce', 'cr', 'cv', 'cen', 'cr.n', 'cr.a[1]', 'cr.a']
VALS = ['5', '7', '2.5', 'TRUE', "'z'", '"z"', '3/4/2001', 'ec', 'r', 'v', 'r.a', 'ci', 'cs']


def attempts():
    out = []
    for c in ALLC:
        for v in VALS:
            out.append(['%s <- %s' % (c, v)])
        out.append(['INPUT %s' % c, '12'])
        out.append(['INPUT %s' % c, 'word'])
        out.append(['READ %s' % c, 'TRUE'])
    for c in ALLC:
        out.append(['FOR %s <- 1 TO 3\nOUTPUT "body"\nNEXT' % c])
        out.append(['FOR %s <- 5 TO 3\nOUTPUT "body"\nNEXT' % c])
        out.append(['READFILE "t.txt", %s' % c])
        out.append(['GETRECORD "r.dat", %s' % c])
        out.append(['SEEK "r.dat", 1', 'GETRECORD "r.dat", %s' % c])
        for f in ('wi', 'wi2', 'wf', 'wp', 'ws', 'wr', 'wv', 'wrv', 'rd', 'gr', 'rf'):
            out.append(['CALL %s(%s)' % (f, c)])
        out.append(['CALL win(%s)' % c, '44'])
        out.append(['OUTPUT fr(%s)' % c])
        out.append(['CALL two(%s, w)' % c])
        out.append(['CALL two(w, %s)' % c])
        for q in ('p', 'ps', 'pr'):
            w = {'p': '80', 'ps': '"80"', 'pr': 'r'}[q]
            out.append(['%s <- ^%s' % (q, c), '%s^' % q, '%s^ <- %s' % (q, w)])
        out.append(['p <- ^%s' % c, 'p2 <- p', 'p2^ <- 81', 'CALL wi(p2^)', 'FOR i <- 1 TO 2\np2^ <- i\nNEXT i'])
        out.append(['pr <- ^%s' % c, 'pr^.n <- 82', 'pr^.a[1] <- 83', 'CALL wi(pr^.n)'])
        for d in ('DECLARE %s : INTEGER', 'DECLARE %s : STRING', 'CONSTANT %s = 100', 'CONSTANT %s = "x"', 'DECLARE %s : ARRAY[1:2] OF INTEGER', 'DECLARE zz, %s : INTEGER', 'TYPE %s = (za, zb)'):
            if '.' not in c:
                out.append([d % c])
    out += [['CALL glob'], ['CALL globs'], ['CALL globf'], ['CALL loc'], ['CALL locc'], ['v <- 33'], ['r.n <- 34'], ['r <- cr'], ['r.a[1] <- 35'], ['s <- cs', 's <- s & "k"'], ['w <- ci', 'w <- w + 1'],
            ['p <- ^v', 'p^ <- 36'], ['ci'], ['ci = 5'], ['ci <- ci'], ['(ci)'], ['w <- ci <- 5'], ['OUTPUT ci <- 5'], ['CALL wv(ci + 1)'], ['PUTRECORD "r.dat", ci'], ['PUTRECORD "r.dat", cr'],
            ['cr.zz <- 5'], ['cr.a[3] <- 5'], ['cr <- cr'], ['cr.n <- cr.n'], ['ci[1] <- 5'], ['ci.n <- 5'], ['ci^ <- 5'], ['CALL wi(cr.a[2])'], ['p <- ^cr.a[2]', 'p^ <- 90'], ['p <- ^cr.n', 'p^ <- 91'],
            ['CALL wi2(cr.n)'], ['CALL two(cr.n, cr.a[1])'], ['FOR i <- 1 TO 2\nci <- i\nNEXT i'], ['FOR i <- ci TO ci\nOUTPUT i\nci <- 1\nNEXT i'], ['IF TRUE THEN\nci <- 1\nENDIF'], ['CASE OF ci\n7: ci <- 1\nENDCASE'],
            ['REPEAT\nci <- ci + 1\nUNTIL ci > 9'], ['WHILE ci < 9 DO\nci <- ci + 1\nENDWHILE']]
    return out


def run(ctx, seq):
    l = []
    for a in seq:
        l += a + DUMP
    batch(ctx, PRE, [l], files=FILES, model_kw=dict(steps=60000))


def runs(ctx, seqs):
    es = []
    for seq in seqs:
        es.append([x for a in seq for x in a + DUMP])
    batch(ctx, PRE, es, files=FILES, model_kw=dict(steps=60000))


DEFS = [('CONSTANT c = 5', 'INTEGER', '6', '5'), ('CONSTANT c <- 5', 'INTEGER', '6', '5'), ('CONSTANT c = -5', 'INTEGER', '6', '5'), ('CONSTANT c = 2.5', 'REAL', '3.5', '1.5'), ('CONSTANT c = -2.5', 'REAL', '3.5', '3'),
        ('CONSTANT c = "s"', 'STRING', '"t"', "'t'"), ("CONSTANT c = 's'", 'CHAR', "'t'", '"t"'), ('CONSTANT c = TRUE', 'BOOLEAN', 'FALSE', 'TRUE'), ('CONSTANT c = 1/1/2000', 'DATE', '2/1/2000', '1/1/2000'),
        ('CONSTANT c = 2 + 3', 'INTEGER', '6', '5'), ('CONSTANT c = ea', 'E', 'eb', 'ea')]


def in_files(tier):
    """Definition and attempt in every pair of scopes, in file mode."""
    t = 'TYPE E = (ea, eb)\nTYPE P%s = ^%s\n'
    for d, ty, v, v2 in DEFS:
        head = t % ('T', ty)
        writes = ['c <- %s' % v, 'c <- %s' % v2, 'c <- c', 'INPUT c', 'CALL wr(c)', 'q <- ^c\nq^ <- %s' % v, 'CALL wr2(c)', 'OUTPUT f(c)', 'READFILE "t.txt", c', 'CONSTANT c = %s' % v2, 'DECLARE c : %s' % ty, d,
                  'FOR c <- 1 TO 2\nNEXT c', 'OPENFILE "r.dat" FOR RANDOM\nDECLARE z : %s\nz <- %s\nSEEK "r.dat", 1\nPUTRECORD "r.dat", z\nSEEK "r.dat", 1\nGETRECORD "r.dat", c' % (ty, v)]
        procs = ('PROCEDURE wr(BYREF x : %s)\nOUTPUT "in", x\nx <- %s\nOUTPUT "out", x\nENDPROCEDURE\nPROCEDURE wr2(BYREF x : %s)\nCALL wr(x)\nENDPROCEDURE\nFUNCTION f(BYREF x : %s) RETURNS %s\nx <- %s\nRETURN x\nENDFUNCTION\n' %
                 (ty, v, ty, ty, ty, v))
        fl = 'DECLARE q : PT\nOPENFILE "t.txt" FOR READ\n'
        for w in writes:
            body = '\nOUTPUT c\n%s\nOUTPUT "after", c\n' % w
            yield head + procs + fl + d + body
            yield head + procs + fl + 'PROCEDURE m()\n' + d + body + 'ENDPROCEDURE\nCALL m\n'
            yield head + procs + fl + d + '\nPROCEDURE m()' + body + 'ENDPROCEDURE\nCALL m\nOUTPUT c\n'
            yield head + procs + fl + d + '\nFUNCTION m() RETURNS INTEGER' + body + 'RETURN 1\nENDFUNCTION\nOUTPUT m()\nOUTPUT c\n'
            yield head + procs + fl + 'FOR i <- 1 TO 2\nIF i = 1 THEN\n' + d + '\nELSE\n' + w + '\nENDIF\nOUTPUT c\nNEXT i\n'
            # a definition executed twice
            yield head + procs + fl + 'FOR i <- 1 TO 2\n' + d.replace('5', '5 + i' if ty == 'INTEGER' else '5') + '\nOUTPUT c\nNEXT i\n'
            # recursion: the constant of one activation
            yield head + procs + fl + 'PROCEDURE m(n : INTEGER)\n' + d + '\nIF n > 0 THEN\nCALL m(n - 1)\nOUTPUT c\nENDIF\nOUTPUT n, c\nIF n = 1 THEN\n' + w + '\nENDIF\nENDPROCEDURE\nCALL m(2)\n'
    for e in ('n', 'n + 1', 'f()', 'r.k', 'a[1]', 'p^', '"a" & s', 'NOT b'):
        pre = ('TYPE R\nDECLARE k : INTEGER\nENDTYPE\nTYPE P = ^INTEGER\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE b : BOOLEAN\nDECLARE r : R\nDECLARE a : ARRAY[1:2] OF INTEGER\nDECLARE p : P\nn <- 1\np <- ^n\n'
               'FUNCTION f() RETURNS INTEGER\nRETURN n\nENDFUNCTION\n')
        yield pre + 'CONSTANT c = %s\nOUTPUT c\nn <- 9\nr.k <- 9\na[1] <- 9\ns <- "z"\nb <- TRUE\nOUTPUT c\nPROCEDURE q()\nn <- 10\nOUTPUT c\nENDPROCEDURE\nCALL q\nOUTPUT c\nc <- c\n' % e


def file_case(ctx, src):
    ctx.diff(src, stdin='9\n8\n7\n', files=FILES)


def cases(tier):
    yield from scale.cases(tier, 'C08')
    yield from transport.cases(tier, 'C08')
    yield from rerun.cases(tier, 'C08')
    yield from merge.cases(tier, 'C08')
    for s in names.cases(tier, 'C08'):
        yield (prog, s)
    at = attempts()
    for a in at:
        yield (run, (a,))
    for s in in_files(tier):
        yield (file_case, s)
    from gen import chunks
    core = [a for i, a in enumerate(at) if not (len(a) == 1 and ' <- ' in a[0] and i % 3) or i % 5 == 0]
    if tier == 'quick':
        core = core[::2]
    for c in chunks(itertools.product(core, repeat=2), 12):
        yield (runs, c)
