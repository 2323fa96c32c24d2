"""C04: BYVAL isolates, BYREF aliases, locals belong to one activation, calls bind and return exactly."""
import itertools

from gen import chunks, prog, batches
import names
import paths
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='all parameter lists of up to 3 parameters x passing modes (written or inherited) x argument forms (variable, array element, record field, '
         'pointer target, array, record) with bodies that write every parameter and the globals; all procedure bodies of up to 3 statements over a '
         'scope alphabet (local/global/undeclared names, nested calls, declarations) x mode x argument; all recursion shapes to depth 5; RETURN of every '
         'type; all illegal calls (count, type, BYREF of a non-variable, missing RETURN, misplaced RETURN). Each program traces all variables',
    assumptions=['procedures and functions are defined before they are called', 'a local enum element with the name of a global variable is not asserted'])

TPRE = '''TYPE E = (ea, eb, ec)
TYPE PI = ^INTEGER
TYPE R
DECLARE n : INTEGER
DECLARE s : STRING
DECLARE g : ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE RR
DECLARE inner : R
DECLARE k : INTEGER
ENDTYPE
DECLARE a, b, c : INTEGER
DECLARE t : STRING
DECLARE arr : ARRAY[1:3] OF INTEGER
DECLARE mat : ARRAY[1:2, 1:2] OF INTEGER
DECLARE r, r2 : R
DECLARE rr : RR
DECLARE ra : ARRAY[1:2] OF R
DECLARE p : PI
a <- 1
b <- 2
c <- 3
arr[1] <- 10
arr[2] <- 20
arr[3] <- 30
mat[2, 1] <- 21
r.n <- 100
r.g[2] <- 7
r.s <- "rs"
rr.inner.n <- 200
rr.k <- 201
ra[2].n <- 300
p <- ^c
'''
SHOW = ('OUTPUT a, " ", b, " ", c, " ", t, " ", arr[1], " ", arr[2], " ", arr[3], " ", mat[2, 1], " ", r.n, " ", r.g[1], " ", r.g[2], " ", r.s, " ", rr.inner.n, " ", '
        'rr.k, " ", ra[2].n, " ", ra[1].n, " ", p^\n')
INTARGS = ['a', 'b', 'arr[1]', 'arr[a + 1]', 'r.n', 'rr.inner.n', 'ra[2].n', 'r.g[2]', 'mat[2, 1]', 'p^', 'c']
MODES = ['', 'BYVAL ', 'BYREF ']


def modes(tier):
    """Modes carry over to the following parameters; every parameter is written, and seen through globals at the same time."""
    for n in (1, 2, 3):
        argsets = [x for x in itertools.product(INTARGS[:9] if n < 3 else INTARGS[:4], repeat=n)]
        if n == 2:
            argsets += [('c', 'p^'), ('p^', 'c'), ('p^', 'p^'), ('c', 'c'), ('arr[1]', 'arr[1]'), ('r.n', 'ra[2].n')]
        for m in itertools.product(MODES, repeat=n):
            for args in argsets:
                if n == 3 and tier == 'quick' and len(set(args)) == 1 and args[0] != 'a':
                    continue
                ps = ', '.join('%sx%d : INTEGER' % (k, i) for i, k in enumerate(m))
                bod = ''.join('x%d <- x%d * 2 + %d\nOUTPUT "in", x%d, " ", a, " ", arr[1], " ", r.n\n' % (i, i, i + 5, i) for i in range(n))
                src = TPRE + 'PROCEDURE q(%s)\n%sa <- a + 1000\nOUTPUT x0, " ", a\nENDPROCEDURE\nCALL q(%s)\n' % (ps, bod, ', '.join(args)) + SHOW
                yield src
                if n == 1 or (n == 2 and tier == 'thorough'):
                    yield (TPRE + 'FUNCTION q(%s) RETURNS INTEGER\n%sa <- a + 1000\nRETURN x0 * 1 + a\nENDFUNCTION\nOUTPUT q(%s), " ", a\n' %
                           (ps, bod, ', '.join(args)) + SHOW).replace('OUTPUT q', 'OUTPUT "r", q')
    # mixed kinds of parameters
    kinds = [('INTEGER', 'a', 'x <- x + 1'), ('STRING', 't', 'x <- x & "q"'), ('R', 'r', 'x.n <- x.n + 1\nx.g[1] <- 5'), ('PI', 'p', 'x^ <- x^ + 1\nx <- ^b'),
             ('R', 'ra[2]', 'x.n <- x.n + 1\nx.s <- "z"'), ('R', 'rr.inner', 'x.n <- x.n + 1\nx.g[2] <- 9'), ('INTEGER', 'arr[2]', 'x <- x + 1')]
    for (ta, va, ba), (tb, vb, bb) in itertools.product(kinds, repeat=2):
        for ma, mb in itertools.product(MODES, repeat=2):
            yield (TPRE + 'PROCEDURE q(%sx : %s, %sy : %s)\n%s\n%s\nENDPROCEDURE\nCALL q(%s, %s)\n' %
                   (ma, ta, mb, tb, ba, bb.replace('x', 'y'), va, vb) + SHOW + 'OUTPUT r.s, ra[2].s, ra[2].g[1], rr.inner.g[2], p^\n')


def signatures(tier):
    """Parameter lists of procedures and functions: every pattern of modes (written or carried over) x every grouping of names under one type x types."""
    for n in range(1, 6 if tier == 'quick' else 7):
        for m in itertools.product(MODES, repeat=n):
            if n > 5 and m[0]:
                continue
            for cut in itertools.product((0, 1), repeat=n - 1):
                cut += (1,)
                ty, k = [], 0
                for c in cut:
                    ty.append(('INTEGER', 'STRING')[k % 2])
                    k += c
                ps = ', '.join('%sx%d%s' % (a, i, ' : ' + ty[i] if cut[i] else '') for i, a in enumerate(m))
                d = ''.join('DECLARE v%d : %s\nv%d <- %s\n' % (i, t, i, i + 1 if t == 'INTEGER' else '"s%d"' % i) for i, t in enumerate(ty))
                b = ''.join('OUTPUT x%d\nx%d <- x%d %s\nOUTPUT x%d, v%d\n' % (i, i, i, '+ 10' if t == 'INTEGER' else '& "+"', i, i) for i, t in enumerate(ty))
                args = ', '.join('v%d' % i for i in range(n))
                show = 'OUTPUT ' + ', ",", '.join('v%d' % i for i in range(n)) + '\n'
                yield d + 'PROCEDURE q(%s)\n%sENDPROCEDURE\nCALL q(%s)\n%sCALL q(%s)\n%s' % (ps, b, args, show, args, show)
                yield d + 'FUNCTION q(%s) RETURNS %s\n%sRETURN x%d\nENDFUNCTION\nOUTPUT q(%s)\n%sOUTPUT q(%s)\n%s' % (ps, ty[-1], b, n - 1, args, show, args, show)


def signature_batch(ctx, srcs):
    for s in srcs:
        ctx.diff(s)


def scopes(tier):
    """Bodies over names that are global (a), parameter (x), or nowhere (z)."""
    alpha = ['a <- a + 1', 'x <- x + 10', 'z <- 5', 'DECLARE a : INTEGER', 'DECLARE z : STRING', 'OUTPUT "a", a', 'OUTPUT "z", z', 'OUTPUT "x", x', 'CALL q(x)', 'CALL q(a)',
             'x <- a', 'a <- x * 2', 'CONSTANT z = 8', 'DECLARE arr : ARRAY[1:1] OF INTEGER\narr[1] <- 99', 'arr[1] <- arr[1] + 1',
             'FOR a <- 1 TO 2\nOUTPUT "f", a\nNEXT a']
    # redefinition of the same name is an error; the model knows
    qs = ['OUTPUT "q", y\ny <- y + 100', 'a <- a + 7\nOUTPUT "qa", a, y', 'OUTPUT "qz", z', 'x <- 3\nOUTPUT "qx", x\ny <- y * 2', 'z <- 6\nDECLARE a : INTEGER\na <- y\ny <- a + 1']
    n = 2 if tier == 'quick' else 3
    args = ['a', 'b', 'arr[1]', 'r.n'] if tier == 'thorough' else ['a', 'b', 'arr[1]']
    pre = ('TYPE R\nDECLARE n : INTEGER\nENDTYPE\nDECLARE a, b : INTEGER\nDECLARE arr : ARRAY[1:3] OF INTEGER\nDECLARE r : R\na <- 1\nb <- 2\narr[1] <- 10\nr.n <- 40\n')
    for k in range(1, n + 1):
        for body in itertools.product(alpha, repeat=k):
            calls = any('CALL q' in s for s in body)
            for q in (qs if calls else qs[:1]):
                for mp in (('BYVAL', 'BYREF') if any('x' in s for s in body) else ('BYREF',)):
                    for mq in (('BYVAL', 'BYREF') if calls else ('BYREF',)):
                        for arg in (args if any('x' in s for s in body) else args[:1]):
                            if tier == 'thorough' and k == 3 and not calls and arg == 'b':
                                continue
                            yield (pre + 'PROCEDURE q(%s y : INTEGER)\n%s\nENDPROCEDURE\nPROCEDURE p(%s x : INTEGER)\n%s\nOUTPUT "x=", x, " a=", a\nENDPROCEDURE\n'
                                   'CALL p(%s)\nOUTPUT a, " ", b, " ", arr[1], " ", r.n\nCALL p(%s)\nOUTPUT a, " ", b, " ", arr[1], " ", r.n\nOUTPUT z\n' %
                                   (mq, q, mp, '\n'.join(body), arg, arg))
    if tier == 'quick':
        # depth 3 without inner calls
        al = alpha[:8] + alpha[10:12]
        for body in itertools.product(al, repeat=3):
            yield (pre + 'PROCEDURE p(BYREF x : INTEGER)\n%s\nOUTPUT "x=", x, " a=", a\nENDPROCEDURE\nCALL p(b)\nOUTPUT a, " ", b\nCALL p(a)\nOUTPUT a, " ", b\nOUTPUT z\n' %
                   '\n'.join(body))


def recursion(tier):
    ds = range(0, 5 if tier == 'quick' else 8)
    locs = ['', 'DECLARE l : INTEGER\n', 'DECLARE l : ARRAY[1:2] OF INTEGER\n']
    for d in ds:
        for mode in ('BYVAL', 'BYREF'):
            for pos in (0, 1, 2):
                # writes before / after the recursive call; locals keep their value across it
                for loc in ('DECLARE l : INTEGER\nl <- n * 10\n', 'l <- n * 10\n', 'DECLARE la : ARRAY[1:2] OF INTEGER\nla[1] <- n\nl <- la[1] * 10\n',
                            'DECLARE s : STRING\ns <- s & NUM_TO_STR(n)\nl <- LENGTH(s)\n', 'CONSTANT k = 4\nl <- k + n\n'):
                    w = ['', '', '']
                    w[pos] = 'v <- v + n\n'
                    src = ('PROCEDURE p(BYVAL n : INTEGER, %s v : INTEGER)\n%s%sOUTPUT "d", n, " ", v, " ", l\nIF n > 0 THEN\n%sCALL p(n - 1, v)\n%sENDIF\n'
                           'OUTPUT "u", n, " ", v, " ", l\nENDPROCEDURE\nDECLARE g : INTEGER\ng <- 5\nCALL p(%d, g)\nOUTPUT g\n' % (mode, loc, w[0], w[1], w[2], d))
                    yield src
                    yield src + 'OUTPUT l\n'
            # BYREF to the parameter of the enclosing activation, alternating modes
            for m2 in ('BYVAL', 'BYREF'):
                yield ('PROCEDURE f(BYVAL n : INTEGER)\nENDPROCEDURE\nPROCEDURE b(%s n : INTEGER, %s t : INTEGER)\nt <- t + 1\nn <- n - 1\nIF n > 0 THEN\nCALL b(n, t)\nENDIF\n'
                       'OUTPUT n, " ", t\nENDPROCEDURE\nx <- %d\ny <- 0\nCALL b(x, y)\nOUTPUT x, " ", y\n' % (mode, m2, d))
            yield ('FUNCTION fact(%s n : INTEGER) RETURNS INTEGER\nDECLARE m : INTEGER\nm <- n\nIF n <= 1 THEN\nRETURN 1\nENDIF\nm <- n - 1\nRETURN n * fact(m)\nENDFUNCTION\n'
                   'x <- %d\nOUTPUT fact(x), " ", x\n' % (mode, d))
            yield ('FUNCTION fib(%s n : INTEGER) RETURNS INTEGER\nDECLARE p, q : INTEGER\nIF n < 2 THEN\nRETURN n\nENDIF\np <- n - 1\nq <- n - 2\nRETURN fib(p) + fib(q) * 1\n'
                   'ENDFUNCTION\nx <- %d\nOUTPUT fib(x), " ", x\n' % (mode, d))
        for m in ('BYVAL', 'BYREF'):
            yield ('TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nFUNCTION f(%s r : R, BYVAL k : INTEGER) RETURNS R\nr.n <- r.n + k\nr.a[1] <- r.a[1] + 1\n'
                   'DECLARE o : R\nIF k > 0 THEN\no <- f(r, k - 1)\nOUTPUT o.n, " ", o.a[1], " ", r.n, " ", r.a[1]\no.n <- o.n * 2\nENDIF\nRETURN r\nENDFUNCTION\n'
                   'DECLARE x, y : R\nx.n <- 1\ny <- f(x, %d)\nOUTPUT x.n, " ", x.a[1], " ", y.n, " ", y.a[1]\ny.n <- 99\nOUTPUT x.n\n' % (m, d))
        yield ('PROCEDURE od(BYVAL n : INTEGER, BYREF t : STRING)\nENDPROCEDURE\nFUNCTION len(n : INTEGER) RETURNS STRING\nDECLARE s : STRING\nIF n = 0 THEN\nRETURN "."\nENDIF\n'
               's <- len(n - 1)\ns <- s & len(n - 1)\nRETURN s & NUM_TO_STR(n)\nENDFUNCTION\nOUTPUT len(%d)\n' % min(d, 5))
        # recursion through an argument, and calls nested in arguments
        yield ('DECLARE cnt : INTEGER\nFUNCTION f(x : INTEGER) RETURNS INTEGER\ncnt <- cnt + 1\nIF x <= 0 THEN\nRETURN cnt\nENDIF\nRETURN f(f(x - 2) - %d) + x\nENDFUNCTION\n'
               'OUTPUT f(%d), " ", cnt\n' % (20, d))
        yield ('FUNCTION id(x : INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION\nFUNCTION add(x : INTEGER, y : INTEGER) RETURNS INTEGER\nRETURN x * 10 + y\nENDFUNCTION\n'
               'OUTPUT add(id(%d), add(id(1), id(id(2)))), " ", add(add(1, 2), add(3, %d))\n' % (d, d))
        yield ('FUNCTION gcd(BYVAL m, BYVAL n : INTEGER) RETURNS INTEGER\nRETURN 0\nENDFUNCTION\n').replace('BYVAL m, ', 'BYVAL m : INTEGER, ') + 'OUTPUT gcd(1, %d)\n' % d
    # mutual recursion through a later definition is resolved at the call
    for d in ds:
        yield ('PROCEDURE ping(n : INTEGER)\nOUTPUT "ping", n\nIF n > 0 THEN\nCALL pong(n - 1)\nENDIF\nENDPROCEDURE\nPROCEDURE pong(n : INTEGER)\nOUTPUT "pong", n\n'
               'IF n > 0 THEN\nCALL ping(n - 1)\nENDIF\nENDPROCEDURE\nCALL ping(%d)\n' % d)
        yield ('FUNCTION ev(n : INTEGER) RETURNS BOOLEAN\nIF n = 0 THEN\nRETURN TRUE\nENDIF\nRETURN od(n - 1)\nENDFUNCTION\nFUNCTION od(n : INTEGER) RETURNS BOOLEAN\nIF n = 0 THEN\nRETURN FALSE\n'
               'ENDIF\nRETURN ev(n - 1)\nENDFUNCTION\nOUTPUT ev(%d), od(%d)\n' % (d, d))


VALS = {'INTEGER': ['5', 'a', '-3', 'a + b', 'arr[2]'], 'REAL': ['2.5', '4 / 2'], 'BOOLEAN': ['TRUE', 'a = 1'], 'CHAR': ["'z'"], 'STRING': ['"z"', '"long"', '""', 't'],
        'DATE': ['1/2/2003'], 'E': ['eb'], 'R': ['r', 'ra[2]', 'rr.inner'], 'PI': ['p'], '?': ['nosuch', 'arr', 'ra', 'F2']}


def returns(tier):
    for t in list(VALS)[:-1]:
        for t2, vs in VALS.items():
            for v in vs:
                show = {'R': 'y.n, y.g[2]', 'PI': 'y^'}.get(t, 'y')
                yield TPRE + 'FUNCTION f() RETURNS %s\nRETURN %s\nENDFUNCTION\nOUTPUT "s"\nDECLARE y : %s\ny <- f()\nOUTPUT %s\n' % (t, v, t, show)
                yield TPRE + 'FUNCTION f(x : %s) RETURNS INTEGER\nOUTPUT "in"\nRETURN 1\nENDFUNCTION\nOUTPUT "s"\nOUTPUT f(%s)\n' % (t, v)
                yield TPRE + 'PROCEDURE f(BYREF x : %s)\nOUTPUT "in"\nENDPROCEDURE\nOUTPUT "s"\nCALL f(%s)\nOUTPUT "e"\n' % (t, v)
                yield TPRE + 'FUNCTION f(x : %s) RETURNS %s\nRETURN x\nENDFUNCTION\nDECLARE y : %s\ny <- f(%s)\nOUTPUT %s\n' % (t, t, t, v, show)
    # the RETURN executed decides; statements after it do not run
    for k in range(0, 4):
        for pre in ('', 'OUTPUT "x"\n', 'a <- a + 1\n'):
            yield TPRE + ('FUNCTION f(x : INTEGER) RETURNS INTEGER\n%sIF x = 0 THEN\nRETURN 100\nENDIF\nIF x = 1 THEN\nRETURN 101\nELSE\nIF x = 2 THEN\nRETURN 102\nOUTPUT "never"\nENDIF\nENDIF\n'
                          'OUTPUT "end"\nENDFUNCTION\nOUTPUT f(%d)\nOUTPUT a\n' % (pre, k))
            yield TPRE + ('FUNCTION f(x : INTEGER) RETURNS INTEGER\nWHILE TRUE DO\nx <- x + 1\nFOR i <- 1 TO 5\n%sIF i * x > 6 THEN\nRETURN i * 10 + x\nENDIF\nNEXT i\nENDWHILE\nENDFUNCTION\n'
                          'OUTPUT f(%d), f(%d + 1)\nOUTPUT a\n' % (pre, k, k))
            # a failing / value-less call does not leak the value of an earlier one
            yield TPRE + ('FUNCTION g() RETURNS INTEGER\nRETURN 55\nENDFUNCTION\nFUNCTION f(x : INTEGER) RETURNS INTEGER\n%sb <- g()\nIF x > 1 THEN\nRETURN g() + x\nENDIF\nENDFUNCTION\n'
                          'OUTPUT f(2)\nOUTPUT f(%d)\nOUTPUT "z"\n' % (pre, k))
    for stmt in ('RETURN 5', 'IF TRUE THEN\nRETURN 5\nENDIF', 'FOR i <- 1 TO 2\nRETURN i\nNEXT i', 'CASE OF a\n1: RETURN 2\nENDCASE', 'WHILE TRUE DO\nRETURN a\nENDWHILE',
                 'REPEAT\nRETURN 1\nUNTIL TRUE'):
        yield TPRE + 'OUTPUT "s"\n%s\nOUTPUT "e"\n' % stmt
        yield TPRE + 'PROCEDURE q()\nOUTPUT "q"\n%s\nOUTPUT "qe"\nENDPROCEDURE\nOUTPUT "s"\nCALL q\nOUTPUT "e"\n' % stmt
        yield TPRE + 'FUNCTION f() RETURNS INTEGER\nCALL q\nRETURN 7\nENDFUNCTION\nPROCEDURE q()\nOUTPUT "q"\n%s\nOUTPUT "qe"\nENDPROCEDURE\nOUTPUT f()\n' % stmt
        yield TPRE + 'FUNCTION f() RETURNS INTEGER\n%s\nOUTPUT "x"\nENDFUNCTION\nOUTPUT f()\n' % stmt
    for t in ('RETURN 1', 'OUTPUT "x"', 'a <- 1', ''):
        yield 'FUNCTION f() RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT "s"\nf()\nOUTPUT "e"\n' % t
        yield 'FUNCTION f() RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT "s"\nx <- f() + 1\nOUTPUT x\n' % t
        yield 'FUNCTION f() RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT "s"\nCALL f\nOUTPUT "e"\n' % t
        yield 'FUNCTION f RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT "s"\nx <- f()\nOUTPUT "e"\n' % t
        yield 'FUNCTION f RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT "s"\nx <- f\nOUTPUT "e"\n' % t
        yield 'PROCEDURE f()\n%s\nENDPROCEDURE\nOUTPUT "s"\nx <- f()\nOUTPUT "e"\n' % t
        yield 'PROCEDURE f\n%s\nENDPROCEDURE\nOUTPUT "s"\nCALL f\nCALL f()\nOUTPUT "e"\n' % t


def illegal(tier):
    vals = ['1', '2.5', '"s"', "'c'", 'TRUE', 'a', 't', 'r', 'arr', 'arr[1]', 'p', 'eb', '1/1/2000', 'a + 1', '(a)', 'f0()', 'K', 'undefinedname', 'p^', 'NOT TRUE', '-a',
            'INTEGER("1")', 'arr[9]', 'r.zz', '1 / 0']
    for params in ('', 'x : INTEGER', 'BYREF x : INTEGER', 'x : INTEGER, y : STRING', 'BYREF x : INTEGER, y : STRING', 'x : INTEGER, BYREF y : INTEGER',
                   'BYREF x : STRING, BYVAL y : INTEGER', 'x : R', 'BYREF x : R', 'BYREF x : E', 'x : REAL', 'BYREF x : REAL', 'BYREF x : CHAR', 'x : CHAR', 'BYREF x : PI'):
        pre = TPRE + 'CONSTANT K = 12\nFUNCTION f0() RETURNS INTEGER\nRETURN 4\nENDFUNCTION\n'
        np = params.count(':')
        for na in range(0, np + 2):
            sets = itertools.product(vals if na == 1 else vals[:14:2], repeat=na) if na <= 2 else [tuple(vals[:na]), ('a',) * na]
            for args in sets:
                a = ', '.join(args)
                call = 'CALL q(%s)' % a if args else 'CALL q'
                yield pre + 'PROCEDURE q(%s)\nOUTPUT "in"\nENDPROCEDURE\nOUTPUT "s"\n%s\nOUTPUT "e"\n' % (params, call)
                if na != 2:
                    yield pre + 'FUNCTION q(%s) RETURNS INTEGER\nOUTPUT "in"\nRETURN 8\nENDFUNCTION\nOUTPUT "s"\nOUTPUT q(%s)\nOUTPUT "e"\n' % (params, a)
    for s in ('CALL nosuch', 'CALL nosuch(1)', 'OUTPUT nosuch(1)', 'nosuch()', 'CALL LENGTH("a")', 'CALL p', 'OUTPUT a(1)', 'PROCEDURE q()\nENDPROCEDURE\nOUTPUT q()',
              'PROCEDURE q()\nENDPROCEDURE\nPROCEDURE q()\nENDPROCEDURE', 'FUNCTION q() RETURNS INTEGER\nRETURN 1\nENDFUNCTION\nFUNCTION q() RETURNS INTEGER\nRETURN 1\nENDFUNCTION',
              'PROCEDURE q(x : Nope)\nENDPROCEDURE', 'FUNCTION q() RETURNS Nope\nRETURN 1\nENDFUNCTION', 'FUNCTION LENGTH(x : STRING) RETURNS INTEGER\nRETURN 1\nENDFUNCTION'):
        yield TPRE + 'OUTPUT "s"\n%s\nOUTPUT "e"\n' % s


def visibility(tier):
    """Locals of one activation are visible nowhere else."""
    kinds = [('DECLARE l : INTEGER\nl <- 3', 'l', 'OUTPUT l'), ('l <- 3', 'l', 'OUTPUT l'), ('CONSTANT l = 3', 'l', 'OUTPUT l'), ('DECLARE l : ARRAY[1:2] OF INTEGER\nl[1] <- 3', 'l[1]', 'OUTPUT l[1]'),
             ('DECLARE l : LR\nl.n <- 3', 'l.n', 'OUTPUT l.n'), ('FOR l <- 1 TO 2\nNEXT l', 'l', 'OUTPUT l'), ('DECLARE l : STRING\nl <- "x"', 'l', 'OUTPUT l')]
    pre = 'TYPE LR\nDECLARE n : INTEGER\nENDTYPE\n'
    for d, name, use in kinds:
        for glob in ('', 'DECLARE l : INTEGER\nl <- 77\n', 'DECLARE l : STRING\nl <- "G"\n', 'CONSTANT l = 66\n', 'DECLARE l : ARRAY[1:3] OF STRING\nl[1] <- "A"\n'):
            for use2 in ('OUTPUT l', 'OUTPUT l[1]', 'l <- 5', 'l <- "q"'):
                # a callee does not see the caller's local
                yield pre + glob + 'PROCEDURE callee()\n%s\nENDPROCEDURE\nPROCEDURE caller()\n%s\nCALL callee\n%s\nENDPROCEDURE\nCALL caller\n%s\n' % (use2, d, use, use2.replace('l <-', 'OUTPUT l\nl <-'))
                # gone after return, fresh in the next activation
                yield pre + glob + 'PROCEDURE once(n : INTEGER)\nIF n = 1 THEN\n%s\n%s\nELSE\n%s\nENDIF\nENDPROCEDURE\nCALL once(1)\nCALL once(2)\n' % (d, use, use2)
                yield pre + glob + 'PROCEDURE once()\n%s\n%s\nENDPROCEDURE\nCALL once\nCALL once\n%s\n' % (d, use, use2)
                yield pre + glob + 'FUNCTION fn() RETURNS INTEGER\n%s\n%s\nRETURN 1\nENDFUNCTION\nx <- fn() + fn()\n%s\n' % (d, use, use2)
    # defaults of locals in every activation
    for t, w in (('INTEGER', '5'), ('STRING', '"x"'), ('BOOLEAN', 'TRUE'), ('REAL', '1.5'), ('CHAR', "'c'"), ('ARRAY[1:2] OF INTEGER', '5'), ('LR', '5')):
        acc = 'l' + ('[2]' if 'ARRAY' in t else '.n' if t == 'LR' else '')
        yield pre + 'PROCEDURE q(n : INTEGER)\nDECLARE l : %s\nOUTPUT %s\n%s <- %s\nOUTPUT %s\nIF n > 0 THEN\nCALL q(n - 1)\nOUTPUT %s\nENDIF\nENDPROCEDURE\nCALL q(2)\nCALL q(1)\n' % (t, acc, acc, w, acc, acc)
    # parameters shadow globals; types declared in a procedure stay there
    for g in ('x <- 5\n', 'DECLARE x : STRING\nx <- "s"\n', 'DECLARE x : ARRAY[1:2] OF INTEGER\n', 'CONSTANT x = 3\n', 'TYPE x = (xa, xb)\n'):
        for m in MODES:
            yield g + 'y <- 9\nPROCEDURE q(%sx : INTEGER)\nx <- x + 1\nOUTPUT x\nENDPROCEDURE\nCALL q(y)\nOUTPUT y\n' % m + ('OUTPUT x\n' if 'ARRAY' not in g and 'TYPE' not in g else '')
    for use in ('DECLARE v : T', 'OUTPUT ta', 'TYPE T = (ta, tc)\nOUTPUT tc'):
        for loc in ('TYPE T = (ta, tb)\nDECLARE w : T\nw <- tb\nOUTPUT w', 'TYPE T\nDECLARE n : INTEGER\nENDTYPE\nDECLARE w : T\nw.n <- 4\nOUTPUT w.n', 'TYPE T = ^INTEGER\nDECLARE w : T\ni <- 5\nw <- ^i\nOUTPUT w^'):
            yield 'PROCEDURE q()\n%s\nENDPROCEDURE\nCALL q\nCALL q\n%s\nOUTPUT "e"\n' % (loc, use)


def typescope(tier):
    """Types defined in an activation are known in that activation only: not in callees, callers, or later activations."""
    td = {'enum': ('TYPE T = (ta, tb)', 'DECLARE w : T\nw <- tb\nOUTPUT w'), 'rec': ('TYPE T\nDECLARE n : INTEGER\nENDTYPE', 'DECLARE w : T\nw.n <- 4\nOUTPUT w.n'),
          'rec2': ('TYPE T\nDECLARE m : STRING\nENDTYPE', 'DECLARE w : T\nw.m <- "m"\nOUTPUT w.m'), 'ptr': ('TYPE T = ^INTEGER', 'DECLARE w : T\nz <- 5\nw <- ^z\nOUTPUT w^'),
          'ptr2': ('TYPE T = ^STRING', 'DECLARE w : T\nz <- "5"\nw <- ^z\nOUTPUT w^'), 'enum2': ('TYPE T = (ua, ta)', 'DECLARE w : T\nw <- ta\nOUTPUT w, ua')}
    uses = ['DECLARE v : T\nOUTPUT "declared"', 'DECLARE v : ARRAY[1:2] OF T\nOUTPUT "declared"', 'OUTPUT ta', 'ta <- 3\nOUTPUT ta', 'OUTPUT ta + 1', 'TYPE V = ^T\nOUTPUT "V"', 'TYPE V\nDECLARE f : T\nENDTYPE\nDECLARE v : V\nOUTPUT "V"',
            'DECLARE v : T\nv.n <- 7\nOUTPUT v.n', 'DECLARE v : T\nv <- ta\nOUTPUT v', 'DECLARE v : T\ny <- 6\nv <- ^y\nOUTPUT v^', 'TYPE T = (ta, tc)\nOUTPUT ta, tc', 'TYPE T\nDECLARE q : REAL\nENDTYPE\nDECLARE v : T\nOUTPUT v.q',
            'DECLARE ta : INTEGER\nOUTPUT ta', 'CASE OF y\nta: OUTPUT "ta"\nOTHERWISE: OUTPUT "o"\nENDCASE']
    globs = ['', *(x[0] for x in td.values())]
    for glob in globs:
        for k, (d, u) in td.items():
            for use in uses:
                g = glob + '\ny <- 1\n' if glob else 'y <- 1\n'
                callee = 'PROCEDURE callee()\nOUTPUT "callee"\n%s\nOUTPUT "ok"\nENDPROCEDURE\n' % use
                fcallee = 'FUNCTION fcallee() RETURNS INTEGER\nOUTPUT "callee"\n%s\nRETURN 1\nENDFUNCTION\n' % use
                caller = 'PROCEDURE caller()\n%s\n%s\n%%s\nOUTPUT "back"\nENDPROCEDURE\n' % (d, u)
                yield g + callee + caller % 'CALL callee' + 'CALL caller\nCALL callee\n'
                yield g + fcallee + caller % 'OUTPUT fcallee()' + 'CALL caller\n'
                yield g + callee + 'PROCEDURE mid()\nCALL callee\nENDPROCEDURE\n' + caller % 'CALL mid' + 'CALL caller\n'
                yield g + caller % 'OUTPUT "x"' + 'CALL caller\nCALL caller\n%s\nOUTPUT "e"\n' % use
                yield g + 'PROCEDURE rec(n : INTEGER)\nIF n = 0 THEN\n%s\n%s\nCALL rec(1)\nELSE\n%s\nENDIF\nOUTPUT "u", n\nENDPROCEDURE\nCALL rec(0)\nCALL rec(1)\n' % (d, u, use)
                # the callee's type in the caller; defined in one call, used in the next
                yield g + 'PROCEDURE inner()\n%s\n%s\nENDPROCEDURE\nPROCEDURE outer()\nCALL inner\n%s\nENDPROCEDURE\nCALL outer\nCALL outer\n' % (d, u, use)
                yield g + 'PROCEDURE once(n : INTEGER)\nIF n = 1 THEN\n%s\n%s\nELSE\n%s\nENDIF\nENDPROCEDURE\nCALL once(1)\nCALL once(2)\n' % (d, u, use)
        # record types and pointer types of an activation are built from its own types first
        for k, (d, u) in td.items():
            for f, v in (('DECLARE f : T', 'v.f'), ('DECLARE f : ARRAY[1:2] OF T', 'v.f[2]'), ('DECLARE e : INTEGER\nDECLARE f, g : T', 'v.g')):
                body = 'TYPE V\n%s\nENDTYPE\nDECLARE v, v2 : V\nDECLARE w : T\n%s\n' % (f, u.split('\n', 1)[1])
                body += '%s <- w\nv2 <- v\nw <- v2%s\nOUTPUT w%s' % (v, v[1:], {'r': '.n', 'p': '^', 'e': ''}[k[0]] if k != 'rec2' else '.m')
                yield (glob or 'OUTPUT "none"') + '\nPROCEDURE caller()\n%s\n%s\nENDPROCEDURE\nCALL caller\nCALL caller\n' % (d, body)
            yield (glob or 'OUTPUT "none"') + '\nPROCEDURE caller()\n%s\nTYPE V = ^T\nDECLARE v : V\n%s\nv <- ^w\nw <- v^\nOUTPUT w%s\nENDPROCEDURE\nCALL caller\nCALL caller\n' % (
                d, u, {'r': '.n', 'p': '^', 'e': ''}[k[0]] if k != 'rec2' else '.m')
        # parameter and result types are those where the routine is defined
        for k, (d, u) in td.items():
            yield (glob or 'OUTPUT "none"') + '\nPROCEDURE takes(x : T)\nOUTPUT "in"\nENDPROCEDURE\nPROCEDURE caller()\n%s\n%s\nCALL takes(w)\nENDPROCEDURE\nCALL caller\n' % (d, u)
            yield (glob or 'OUTPUT "none"') + '\nFUNCTION gives() RETURNS T\nDECLARE x : T\nRETURN x\nENDFUNCTION\nPROCEDURE caller()\n%s\n%s\nw <- gives()\nOUTPUT "assigned"\nENDPROCEDURE\nCALL caller\n' % (d, u)


# ---- one statement of one activation executed before and after a local of the same name appears
SG = {'var': 'DECLARE g : INTEGER\ng <- 10', 'arr': 'DECLARE g : ARRAY[1:3] OF INTEGER\ng[1] <- 10\ng[2] <- 11\ng[3] <- 12', 'const': 'CONSTANT g = 10', 'str': 'DECLARE g : STRING\ng <- "glob"', 'rec': 'DECLARE g : R\ng.n <- 10\ng.a[2] <- 11',
      'ptr': 'DECLARE g : P\ng <- ^tgt', 'rarr': 'DECLARE g : ARRAY[1:2] OF R\ng[1].n <- 10', 'none': 'OUTPUT "noglob"'}
SL = {'var': 'DECLARE g : INTEGER', 'arr': 'DECLARE g : ARRAY[1:3] OF INTEGER', 'arr2': 'DECLARE g : ARRAY[0:4] OF INTEGER', 'const': 'CONSTANT g = 77', 'str': 'DECLARE g : STRING\ng <- "loc"', 'rec': 'DECLARE g : R', 'ptr': 'DECLARE g : P\ng <- ^tgt2',
      'rarr': 'DECLARE g : ARRAY[1:2] OF R', 'for': 'FOR g <- 5 TO 6\nOUTPUT "f", g\nNEXT g', 'input': 'INPUT g', 'assign': 'g <- 55', 'call': 'CALL other'}
SU = ['OUTPUT g', 'OUTPUT g[1]', 'OUTPUT g[k]', 'g <- k', 'g <- g + k', 'g[1] <- g[1] + k', 'g[k] <- 20 + k', 'CALL br(g)', 'CALL br(g[k])', 'CALL br(g[2])', 'p <- ^g\nOUTPUT p^\np^ <- p^ + 100', 'p <- ^g[2]\np^ <- p^ + 100', 'oa <- g\nOUTPUT oa[1], oa[2]', 'g <- oa', 'OUTPUT g.n, g.a[2]',
      'g.n <- g.n + k', 'g.a[2] <- k', 'CALL rr(g)', 'rl <- g\nOUTPUT rl.n', 'g <- rl', 'CALL rr(g[1])', 'OUTPUT g[1].n', 'g[2] <- g[1]\ng[2].n <- g[2].n + 1\nOUTPUT g[2].n', 'OUTPUT g^', 'g^ <- g^ + k', 'CALL br(g^)', 'INPUT g', 'INPUT g[1]', 'OUTPUT id(g)', 'OUTPUT id(g[2])', 'OUTPUT ids(g)', 'OUTPUT "" & g',
      'FOR g <- 1 TO 2\nOUTPUT "it", g\nNEXT g', 'FOR z <- g TO 12\nNEXT z\nOUTPUT z', 'CASE OF g\n10: OUTPUT "ten"\n77: OUTPUT "77"\nOTHERWISE: OUTPUT "o"\nENDCASE', 'WHILE g > 60 DO\ng <- g - 10\nENDWHILE', 'CALL p2(g)\nOUTPUT "p2"', 'SEEK "none", g', 'g[g[1] - 9] <- 5', 'OUTPUT g[oa[3] + 1]',
      'FOR z <- 1 TO 3\ng[z] <- g[z] * 2\nNEXT z', 'OPENFILE "t" FOR WRITE\nWRITEFILE "t", g\nCLOSEFILE "t"']
SPRE = ('TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE P = ^INTEGER\nDECLARE tgt, tgt2 : INTEGER\ntgt <- 40\ntgt2 <- 41\nPROCEDURE br(BYREF x : INTEGER)\nOUTPUT "br", x\nx <- x + 1\nENDPROCEDURE\n'
        'PROCEDURE rr(BYREF x : R)\nOUTPUT "rr", x.n\nx.n <- x.n + 1\nENDPROCEDURE\nFUNCTION id(x : INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION\nFUNCTION ids(x : STRING) RETURNS STRING\nRETURN x\nENDFUNCTION\n'
        'PROCEDURE p2(x : INTEGER)\nx <- 0\nENDPROCEDURE\nPROCEDURE other()\nDECLARE g : INTEGER\ng <- 900\nENDPROCEDURE\n')
GSHOW = {'var': 'OUTPUT g', 'const': 'OUTPUT g', 'str': 'OUTPUT g', 'arr': 'OUTPUT g[1], " ", g[2], " ", g[3]', 'rec': 'OUTPUT g.n, " ", g.a[1], " ", g.a[2]', 'ptr': 'OUTPUT g^, " ", tgt, " ", tgt2', 'rarr': 'OUTPUT g[1].n, " ", g[2].n', 'none': 'OUTPUT "-"'}


def stdin_prog(ctx, s):
    ctx.diff(s, stdin='31\n32\n33\n34\n35\n36\n')


def shadow(tier):
    for gk, lk in itertools.product(SG, SL):
        for use in SU:
            loc = 'DECLARE k : INTEGER\nDECLARE p : P\nDECLARE oa : ARRAY[1:3] OF INTEGER\nDECLARE rl : R\noa[1] <- 7\noa[2] <- 8\nrl.n <- 9\n'
            body = loc + 'FOR k <- 1 TO 3\nIF k = 2 THEN\n%s\nENDIF\n%s\nNEXT k' % (SL[lk], use)
            d = SPRE + SG[gk] + '\nPROCEDURE q()\n%s\nENDPROCEDURE\n' % body
            yield d + 'CALL q\n%s\nCALL q\n%s\n' % (GSHOW[gk], GSHOW[gk])
            if tier == 'quick' and (lk in ('arr2', 'ptr', 'rarr', 'input', 'call') or gk in ('rarr', 'ptr')):
                continue
            # recursion: the same statement in an activation with and in one without the local
            yield (SPRE + SG[gk] + '\nPROCEDURE q(n : INTEGER)\n%sk <- n\nIF n MOD 2 = 0 THEN\n%s\nENDIF\n%s\nIF n < 4 THEN\nCALL q(n + 1)\nENDIF\n%s\nENDPROCEDURE\nCALL q(1)\n%s\n' % (loc, SL[lk], use, use, GSHOW[gk]))
            # the global only appears between two calls
            if lk == 'var':
                yield SPRE + 'PROCEDURE q(k : INTEGER)\n%s%s\nENDPROCEDURE\n%s\nCALL q(1)\n%s\nCALL q(2)\n%s\n' % (loc.replace('DECLARE k : INTEGER\n', ''), use, SG[gk], GSHOW[gk], GSHOW[gk])


def cases(tier):
    yield from scale.cases(tier, 'C04')
    yield from transport.cases(tier, 'C04')
    yield from rerun.cases(tier, 'C04')
    yield from merge.cases(tier, 'C04')
    for g in (paths.chains, visibility, typescope, recursion, returns, illegal, modes, scopes):
        for s in g(tier):
            yield (prog, s)
    for c in chunks(signatures(tier), 30):
        yield (signature_batch, c)
    for s in itertools.chain(names.cases(tier, 'C04'), shadow(tier)):
        yield (stdin_prog, s)
