"""C05: variables keep their declared type; bad stores are rejected without effect."""
import itertools

from gen import batches, prog, session
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='every store mechanism (assignment, element, field, pointer target, BYVAL/BYREF parameter, RETURN, INPUT, READFILE, FOR, CONSTANT, first '
         'assignment, redeclaration) x every target type x every source value of every type, in a REPL session that shows the target (value and type) '
         'after every step; all sequences of two (thorough: three) stores to the same target; all input lines of the line alphabet x types',
    assumptions=['INPUT of several characters into a CHAR and numerals outside the range of the type are not asserted'])

PRE = ['TYPE E = (ea, eb, ec)', 'TYPE F = (fa, fb)', 'TYPE PI = ^INTEGER', 'TYPE PR = ^REAL', 'TYPE PE = ^E',
       'TYPE R\nDECLARE n : INTEGER\nDECLARE x : REAL\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE d : DATE\nDECLARE e : E\nDECLARE p : PI\n'
       'DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', 'TYPE Q\nDECLARE n : INTEGER\nENDTYPE',
       'DECLARE vn : INTEGER', 'DECLARE vx : REAL', 'DECLARE vb : BOOLEAN', 'DECLARE vc : CHAR', 'DECLARE vs : STRING', 'DECLARE vd : DATE', 'DECLARE ve : E',
       'DECLARE vf : F', 'DECLARE vp : PI', 'DECLARE vq : PR', 'DECLARE r : R', 'DECLARE q : Q', 'DECLARE k, k2 : INTEGER', 'DECLARE kx : REAL',
       'DECLARE an : ARRAY[1:2] OF INTEGER', 'DECLARE ax : ARRAY[1:2] OF REAL', 'DECLARE ab : ARRAY[1:2] OF BOOLEAN', 'DECLARE ac : ARRAY[1:2] OF CHAR',
       'DECLARE as : ARRAY[1:2] OF STRING', 'DECLARE ad : ARRAY[1:2] OF DATE', 'DECLARE ae : ARRAY[1:2] OF E', 'DECLARE ar : ARRAY[1:2] OF R',
       'k <- 41', 'kx <- 4.25', 'vp <- ^k', 'vq <- ^kx', 'vn <- 7', 'vx <- 1.5', 'vb <- TRUE', "vc <- 'q'", 'vs <- "keep"', 'vd <- 3/4/2005', 've <- eb', 'vf <- fb',
       'r.n <- 70', 'r.x <- 7.5', "r.c <- 'r'", 'r.s <- "rs"', 'r.d <- 5/5/2005', 'r.e <- ec', 'r.p <- ^k', 'r.a[2] <- 8', 'q.n <- 5',
       'an[1] <- 11', 'ax[1] <- 1.25', 'ab[1] <- TRUE', "ac[1] <- 'm'", 'as[1] <- "elem"', 'ad[1] <- 6/6/2006', 'ae[1] <- ec', 'ar[1] <- r']
T = {'INTEGER': ('vn', 'an[1]', 'r.n', 'vp^'), 'REAL': ('vx', 'ax[1]', 'r.x', 'vq^'), 'BOOLEAN': ('vb', 'ab[1]', 'r.b'), 'CHAR': ('vc', 'ac[1]', 'r.c'),
     'STRING': ('vs', 'as[1]', 'r.s'), 'DATE': ('vd', 'ad[1]', 'r.d'), 'E': ('ve', 'ae[1]', 'r.e'), 'F': ('vf',), 'PI': ('vp', 'r.p'), 'PR': ('vq',), 'R': ('r', 'ar[1]'), 'Q': ('q',)}
VALUES = ['5', '0', '-3', '9007199254740993', 'k', 'k + 1', '2.5', '3.0', '-0.5', '4 / 2', 'kx', 'TRUE', 'FALSE', '1 = 1', "'x'", "'5'", '"x"', '"5"', '""', '"xy"', '"TRUE"',
          '"a" & ""', '"a" & "b"', "'a' & ''".replace("''", '""'), 'LEFT("zed", 1)', 'CHR(65)', 'LENGTH("abc")', 'INTEGER("12")', 'REAL(3)', 'STRING(7)', '1/2/2000', '29/2/2000', '30/2/2000',
          'SETDATE(1, 1, 1999)', 'ea', 'ec', 'fa', 'vf', 've', 'vp', 'vq', 'r', 'ar[1]', 'ar[2]', 'q', 'an', 'an[2]', 'nosuch', '1 / 0', 'vn', 'vx', 'vb', 'vc', 'vs', 'vd', 'r.n', 'r.a',
          'r.a[2]', 'vp^', 'ea + 1', 'fa + 1', '10 DIV 3', '10 MOD 4', '7 * 1.0', 'INT(2.9)', 'E', 'INTEGER(2.9)', 'STR_TO_NUM("4")', 'NUM_TO_STR(4)', 'IS_NUM("1")', 'UCASE(vc)', '-k']


def echo(t):
    if t in ('r', 'ar[1]'):
        return ['%s.n' % t, '%s.x' % t, '%s.b' % t, '%s.c' % t, '%s.s' % t, '%s.d' % t, '%s.e' % t, '%s.a[2]' % t]
    if t == 'q':
        return ['q.n']
    if t in ('vp', 'vq', 'r.p'):
        return [t, t + '^']
    return [t]


def stores(tier):
    for ty, ts in T.items():
        for t in ts:
            for v in VALUES:
                if v == t:
                    continue
                yield ['%s <- %s' % (t, v)] + echo(t)
            if ty in ('PI', 'PR'):
                for v in ('^k', '^kx', '^vn', '^vx', '^an[1]', '^an[2]', '^r.n', '^r.x', '^vs', '^r', '^an', '^ve', '^k2', '^vp^', '^vp', '^nosuch', '^ar[1].n'):
                    yield ['%s <- %s' % (t, v)] + echo(t) + ['k', 'k2']
            if ty not in ('PI', 'PR'):
                yield ['%s <- ^k' % t] + echo(t)
    # parameters and returns
    for ty, ts in T.items():
        fn = ['FUNCTION byval%s(z : %s) RETURNS BOOLEAN\nRETURN TRUE\nENDFUNCTION' % (ty, ty), 'PROCEDURE byref%s(BYREF z : %s)\nOUTPUT "in"\nENDPROCEDURE' % (ty, ty)]
        if ty not in ('R', 'Q', 'PI', 'PR'):
            fn.append('PROCEDURE show%s(z : %s)\nOUTPUT z\nENDPROCEDURE' % (ty, ty))
        yield fn
        for v in VALUES:
            yield ['byval%s(%s)' % (ty, v), 'CALL byref%s(%s)' % (ty, v)] + (['CALL show%s(%s)' % (ty, v)] if len(fn) == 3 else [])


def returns(tier):
    n = 0
    for ty, ts in T.items():
        for v in VALUES:
            n += 1
            f = 'FUNCTION f%d() RETURNS %s\nRETURN %s\nENDFUNCTION' % (n, ty, v)
            if ty in ('R', 'Q'):
                yield [f, '%s <- f%d()' % (ts[0], n)] + echo(ts[0])
            else:
                yield [f, 'f%d()' % n, '%s <- f%d()' % (ts[0], n)] + echo(ts[0])


def inferred(tier):
    """The first assignment fixes the type."""
    n = 0
    vals = [v for v in VALUES if v not in ('ar[2]', 'vq', 'r.a')]
    second = vals + ['^k']
    for v in vals:
        for w in second:
            n += 1
            yield ['u%d <- %s' % (n, v), 'u%d' % n, 'u%d <- %s' % (n, w), 'u%d' % n]
    for v in vals:
        n += 1
        yield ['CONSTANT c%d = %s' % (n, v), 'c%d' % n, 'c%d <- %s' % (n, v), 'c%d' % n]


def sequences(tier):
    vals = {'INTEGER': ['5', '2.5', '"5"', 'TRUE', '1 / 0'], 'REAL': ['5', '2.5', '"2.5"', "'2'", 'kx'], 'BOOLEAN': ['TRUE', 'FALSE', '1', '"TRUE"', '1 = 2'],
            'CHAR': ["'x'", '"y"', '"yz"', '""', '65', '"" & "w"'], 'STRING': ['"xy"', "'z'", '5', '""', '2.5', 'TRUE'],
            'DATE': ['1/2/2000', '"1/2/2000"', '5', '30/2/2001', '1/2/2001'], 'E': ['ea', 'ec', '1', 'fa', '"ea"', 've + 1'], 'PI': ['^k', '^kx', 'vq', '5', '^k2', '^vn'],
            'R': ['ar[1]', 'ar[2]', 'q', '5', 'an']}
    depth = 3 if tier == 'quick' else 4
    for ty, vs in vals.items():
        for t in T[ty]:
            for s in itertools.product(vs, repeat=depth):
                e = []
                for v in s:
                    e += ['%s <- %s' % (t, v)] + echo(t)
                yield e


LINES = ['', '5', '-3', '+4', '2.5', '.5', '5.', '-2.5', '1e3', '0x10', 'TRUE', 'FALSE', 'true', 'True', 'T', '1', '0', 'x', 'xy', ' ', ' 5', '5 ', '5 6', '12x', 'abc', '"q"', "'q'", '1/2/2000',
         '29/2/2000', '30/2/2000', '1/2', '//', '007', '9007199254740993', '-0', '--5', '1-1', '5,6', 'nan', 'inf', '2147483648', '\\n', 'TRUE ', '1.2.3', '-', '+', '.', 'eb', '#', 'EXIT', '16777217', '16777216.5', '-16777217', '0.1', '123456789.125', '4503599627370497.5', '0.000001', '1e-3', '2E2', '-0.0', '1.0', '33554433', '9223372036854775807',
         '-9223372036854775807', '4294967296', '-2147483649', '65536', '256', '1e22', '1.7976931348623157e308', '5e-7', '00.5', '1e', '1e+', '0b1', '1_000', '0x1p3', '1d', '1f', '1L', 'Infinity', '-inf', 'NAN']


def inputs(tier):
    for ty, ts in T.items():
        for t in ts:
            for l in LINES:
                if ty == 'CHAR' and len(l) > 1:
                    continue
                yield ['INPUT %s' % t, l] + echo(t)
    for l in LINES:
        if l:
            yield ['INPUT wnew', l, 'wnew']
    for t in ('an', 'r', 'K', 'E', 'ea', 'nosuch.n', 'an[9]', 'r.zz', '5', 'vn + 1', 'vp'):
        yield ['INPUT %s' % t, '77', 'vn', 'an[1]', 'r.n']


def readfile_cases(tier):
    for ty, ts in T.items():
        for t in ts[:1]:
            for l in LINES:
                if ty == 'CHAR' and len(l) > 1:
                    continue
                yield ty, t, l
    for l in LINES:
        for t in ('an', 'K', 'newvar', 'newvar', 'vn.x', 'r.n', 'an[1]', 'vp^', '5'):
            yield None, t, l


def readfiles(ctx, part):
    """READFILE into every target type: a failing store leaves the target's value."""
    from gen import batch
    files = [('f', 0, 'in.txt', ''.join(l + '\n' for _, _, l in part))]
    entries = []
    for ty, t, l in part:
        entries.append(['READFILE "in.txt", %s' % t] + echo(t))
    s = list(PRE) + ['CONSTANT K = 5', 'OPENFILE "in.txt" FOR READ']
    for e in entries:
        s += e
    ctx.repl(session(s + ['EOF("in.txt")']), files=files)


FILE_TARGETS = [('INTEGER', 'v'), ('REAL', 'v'), ('BOOLEAN', 'v'), ('CHAR', 'v'), ('STRING', 'v'), ('DATE', 'v'), ('E', 'v'), ('F', 'v')]


def in_files(tier):
    """File mode: the target's old value is still there for a later activation (shown before the failing store), and no wrong value is accepted."""
    for ty, _ in FILE_TARGETS:
        for v in VALUES:
            if v in ('k', 'kx', 'vf', 've', 'vp', 'vq', 'r', 'ar[1]', 'ar[2]', 'q', 'an', 'an[2]', 'vn', 'vx', 'vb', 'vc', 'vs', 'vd', 'r.n', 'r.a', 'r.a[2]', 'vp^', 'k + 1', 'UCASE(vc)', '-k'):
                continue
            pre = 'TYPE E = (ea, eb, ec)\nTYPE F = (fa, fb)\n'
            yield pre + 'DECLARE v : %s\nOUTPUT "s"\nv <- %s\nOUTPUT v\n' % (ty, v)
            yield pre + 'PROCEDURE f(z : %s)\nOUTPUT z\nENDPROCEDURE\nOUTPUT "s"\nCALL f(%s)\n' % (ty, v)
            yield pre + 'FUNCTION f() RETURNS %s\nOUTPUT "f"\nRETURN %s\nENDFUNCTION\nOUTPUT "s"\nOUTPUT f()\n' % (ty, v)
            yield pre + 'DECLARE v : %s\nPROCEDURE f()\nv <- %s\nOUTPUT "done"\nENDPROCEDURE\nOUTPUT "s"\nCALL f\nOUTPUT v\n' % (ty, v)
            yield pre + 'PROCEDURE f(BYREF z : %s)\nz <- %s\nOUTPUT z\nENDPROCEDURE\nDECLARE v : %s\nCALL f(v)\nOUTPUT v\n' % (ty, v, ty)


def input_file(tier):
    for ty in ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E'):
        for l in LINES:
            if ty == 'CHAR' and len(l) > 1:
                continue
            yield 'TYPE E = (ea, eb)\nDECLARE v : %s\nOUTPUT "s"\nINPUT v\nOUTPUT v\nDECLARE w : STRING\nINPUT w\nOUTPUT w\n' % ty, l + '\nnext\n'
            yield 'TYPE E = (ea, eb)\nDECLARE v : ARRAY[1:2] OF %s\nINPUT v[2]\nOUTPUT v[2]\nOUTPUT v[1] = v[2]\n' % ty, l + '\nnext\n'


def redeclare(tier):
    """A second declaration never changes the type or value of an existing name."""
    decls = ['DECLARE %s : INTEGER', 'DECLARE %s : STRING', 'CONSTANT %s = 5', 'DECLARE %s : ARRAY[1:2] OF INTEGER', 'DECLARE %s : R', 'TYPE %s = (za%d, zb%d)', '%s <- 5', '%s <- "str"',
             'FOR %s <- 1 TO 2\nNEXT', 'DECLARE zz%d, %s : REAL', 'TYPE %s\nDECLARE n : INTEGER\nENDTYPE', 'TYPE %s = ^INTEGER']
    n = 0
    for a, b in itertools.product(decls, repeat=2):
        n += 1
        nm = 'd%d' % n
        f = lambda s, k: s.replace('%s', nm).replace('%d', '%d%s' % (n, k))
        yield [f(a, 'a'), nm, f(b, 'b'), nm, nm + '[1]', nm + '.n', nm + ' <- 6', nm, nm + ' <- "t"', nm]
        if tier == 'thorough':
            for c in decls:
                n += 1
                nm = 'd%d' % n
                f = lambda s, k: s.replace('%s', nm).replace('%d', '%d%s' % (n, k))
                yield [f(a, 'a'), nm, f(b, 'b'), nm, f(c, 'c'), nm, nm + '[1]', nm + '.n', nm + ' <- 6', nm]


def input_prog(ctx, src, stdin):
    ctx.diff(src, stdin=stdin)


def cases(tier):
    yield from scale.cases(tier, 'C05')
    yield from transport.cases(tier, 'C05')
    yield from rerun.cases(tier, 'C05')
    yield from merge.cases(tier, 'C05')
    from gen import chunks
    for g, n in ((stores, 40), (returns, 30), (sequences, 30), (inferred, 60), (redeclare, 20)):
        yield from batches(PRE, g(tier), n) if g is not stores else batches(PRE, stores_main(tier), 40)
    yield from param_batches(tier)
    yield from batches(PRE, many(tier), 20)
    for s in many_in_files(tier):
        yield (prog, s)
    yield from batches(PRE + ['CONSTANT K = 5'], inputs(tier), 40)
    for c in chunks(readfile_cases(tier), 40):
        yield (readfiles, c)
    for s in in_files(tier):
        yield (prog, s)
    for s, i in input_file(tier):
        yield (input_prog, s, i)


def stores_main(tier):
    for e in stores(tier):
        if 'byval' in e[0] or 'FUNCTION' in e[0]:
            continue
        yield e


MANY = {'INTEGER': ('vn', '2.5', '"5"', "'q'"), 'REAL': ('vx', 'vn', '"2.5"'), 'BOOLEAN': ('vb', '1', '"TRUE"'), 'CHAR': ('vc', '"x"', '"xy"', '""'), 'STRING': ('vs', 'vc', '5', '"s"'),
        'DATE': ('vd', '5'), 'E': ('ve', 'vf', '1'), 'PI': ('vp', 'vq'), 'R': ('r', 'q')}


def many(tier):
    """Routines with several parameters: every argument is converted for its own parameter."""
    n = 0
    show = {'PI': '%s^', 'R': '%s.n'}
    types = [p for k in (2, 3) for p in itertools.product(MANY, repeat=k) if k == 2 or len(set(p)) < 3 or tier == 'thorough']
    for ts in types:
        if len(ts) == 3 and tier == 'quick' and (len(set(ts)) > 1 and not set(ts) & {'REAL', 'CHAR', 'STRING'}):
            continue
        n += 1
        grouped = []
        for k, t in enumerate(ts):
            nm = 'z%d' % k
            if grouped and grouped[-1][1] == t:
                grouped[-1][0].append(nm)
            else:
                grouped.append(([nm], t))
        sigs = {', '.join('z%d : %s' % (k, t) for k, t in enumerate(ts)), ', '.join('%s : %s' % (', '.join(g), t) for g, t in grouped)}
        outs = ', ",", '.join(show.get(t, '%s') % ('z%d' % k) for k, t in enumerate(ts))
        args = list(itertools.product(*(MANY[t] if len(ts) == 2 else MANY[t][:3 if t in ('REAL', 'CHAR', 'STRING') else 1] for t in ts)))
        for j, sig in enumerate(sorted(sigs)):
            d = ['PROCEDURE mp%d_%d(%s)\nOUTPUT %s\nENDPROCEDURE' % (n, j, sig, outs), 'FUNCTION mf%d_%d(%s) RETURNS %s\nRETURN z%d\nENDFUNCTION' % (n, j, sig, ts[-1], len(ts) - 1)]
            e = list(d)
            for a in args:
                e += ['CALL mp%d_%d(%s)' % (n, j, ', '.join(a))]
                e += ['mf%d_%d(%s)' % (n, j, ', '.join(a))] if ts[-1] != 'R' else ['r <- mf%d_%d(%s)' % (n, j, ', '.join(a)), 'r.n']
            yield e


def many_in_files(tier):
    for s in many('thorough' if tier == 'thorough' else 'quick'):
        calls = [c for c in s[2:] if c.startswith('CALL')]
        for c in calls if tier == 'thorough' else calls[1:6]:
            yield '\n'.join(PRE + [s[0], 'OUTPUT "s"', c, 'OUTPUT "e"']) + '\n'


def param_batches(tier):
    defs = []
    es = []
    for e in stores(tier):
        if 'FUNCTION' in e[0]:
            defs += e
        elif 'byval' in e[0]:
            es.append(e)
    yield from batches(PRE + defs, es, 40)
