"""The same piece of source executed several times with different state: every statement of a group is run three times,
with every sequence of three state changes in front of the executions, in six arrangements:
  A  a procedure called from the main program (global state)          B  the body of a loop
  C  a procedure called from REPL entries (goes on after errors)      D  recursive activations with their own variables,
  E  successive activations with their own variables                     the statement before and after the inner call
  F  the same, called from REPL entries
A node that remembers anything from an earlier execution shows here."""
import itertools

from gen import prog, session, chain


RULE = ('re-execution: every statement of a group executed repeatedly in one run (same node), with all sequences of up to three state changes between the '
        'executions, as a procedure, loop body, recursive and successive activation, in file and REPL, props/rerun.py')


class G:
    def __init__(self, glob, vars, stmts, changes, n=3, modes='ABCDF', kw=None):
        self.glob, self.vars, self.stmts, self.changes, self.n, self.modes, self.kw = glob, vars, stmts, changes, n, modes, kw or {}


def lines(x):
    return x.replace('; ', '\n') + '\n' if x else ''


def body(l):
    return ''.join(lines(x) for x in l)


def case(cs):
    return 'CASE OF q\n' + ''.join('%d:\n%s' % (k + 1, lines(c)) for k, c in enumerate(cs)) + 'ENDCASE\n'


def A(g, st, cs):
    return body(g.glob) + body(g.vars) + 'PROCEDURE S()\n' + lines(st) + 'ENDPROCEDURE\n' + ''.join(lines(c) + 'CALL S\n' for c in cs) + 'OUTPUT "end"\n'


def B(g, st, cs):
    return body(g.glob) + body(g.vars) + 'FOR q <- 1 TO %d\n' % len(cs) + case(cs) + lines(st) + 'NEXT q\nOUTPUT "end"\n'


def entries(l):
    e = []
    for x in l:
        x = lines(x).rstrip('\n')
        e += [x] if x.split(' ')[0] in ('PROCEDURE', 'FUNCTION', 'FOR', 'IF', 'WHILE') or (x.startswith('TYPE') and '\n' in x) else x.split('\n')
    return e


def C(g, st, cs):
    e = entries(g.glob + g.vars)
    e.append('PROCEDURE S()\n' + lines(st) + 'ENDPROCEDURE')
    for c in cs:
        e += [x for x in c.split('; ') if x] + ['CALL S']
    return e + ['OUTPUT "end"']


def D(g, st, cs):
    return (body(g.glob) + 'PROCEDURE S(q : INTEGER)\n' + body(g.vars) + case(cs) + lines(st) + 'IF q < %d THEN\nCALL S(q + 1)\nENDIF\nOUTPUT "back", q\n' % len(cs) + lines(st) +
            'ENDPROCEDURE\nCALL S(1)\nOUTPUT "end"\n')


def E(g, st, cs):
    return body(g.glob) + 'PROCEDURE S(q : INTEGER)\n' + body(g.vars) + case(cs) + lines(st) + 'ENDPROCEDURE\n' + ''.join('CALL S(%d)\n' % (k + 1) for k in range(len(cs))) + 'OUTPUT "end"\n'


def F(g, st, cs):
    return entries(g.glob) + ['PROCEDURE S(q : INTEGER)\n' + body(g.vars) + case(cs) + lines(st) + 'ENDPROCEDURE'] + ['CALL S(%d)' % (k + 1) for k in range(len(cs))] + ['OUTPUT "end"']


def run(ctx, mode, src, kw):
    if mode in 'CF':
        ctx.repl(session(src), **kw)
    else:
        ctx.diff(src, **kw)


TYPES = ['TYPE E = (ea, eb, ec)', 'TYPE F = (fa, fb)', 'TYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', 'TYPE Q\nDECLARE m : INTEGER\nDECLARE n : STRING\nENDTYPE', 'TYPE P = ^INTEGER', 'TYPE PS = ^STRING']
OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '<=', '>', '>=']
DYN = ['v <- 7', 'v <- -2', 'v <- 2.5', 'v <- "ab"', "v <- 'c'", 'v <- TRUE', 'v <- 29/2/2024', 'v <- eb', '']


def groups(p):
    two = ['DECLARE a, b : INTEGER']
    if p == 'C02':
        ab = ['a <- 7; b <- 2', 'a <- -7; b <- 2', 'a <- 2; b <- 7', 'a <- 0; b <- 1', 'a <- 3; b <- 0', 'b <- a', 'a <- 9007199254740993; b <- 3']
        yield G([], two, ['OUTPUT a %s b' % o for o in OPS] + ['OUTPUT -a + b * a', 'OUTPUT (a < b) AND (b > 1) OR NOT (a = 7)', 'OUTPUT a = b AND b <> 2', 'OUTPUT (a + b) * (a - b) & "x"', 'OUTPUT (a DIV b) * b + (a MOD b) = a', 'x <- a / b; OUTPUT x * 2, NOT (x = a)'], ab)
        yield G([], ['DECLARE a, b : REAL'], ['OUTPUT a %s b' % o for o in OPS] + ['OUTPUT -a', 'OUTPUT a + 1, 1 - b, a DIV 2'], ['a <- 7.5; b <- 2', 'a <- -0.5; b <- 3', 'a <- 1; b <- 0', 'b <- a', 'a <- 1000000000.0'])
        yield G([], ['DECLARE a, b : BOOLEAN'], ['OUTPUT a AND b', 'OUTPUT a OR b', 'OUTPUT NOT a', 'OUTPUT NOT a AND b OR a', 'OUTPUT a = b, a <> b'], ['a <- TRUE', 'b <- TRUE', 'a <- FALSE; b <- TRUE', 'a <- b; b <- FALSE', 'a <- NOT a'])
        yield G([], ['DECLARE a, b : STRING'], ['OUTPUT a & b', 'OUTPUT a = b, a <> b', 'OUTPUT a < b', 'OUTPUT a & 1 & b', 'OUTPUT a + b', 'x <- a & b; OUTPUT x, LENGTH(x)'], ['a <- "x"', 'b <- "y"; a <- a & "z"', 'a <- b', 'a <- ""; b <- "0123456789abcdef0123456789"', "b <- 'c'"])
        # operands whose type differs between the activations
        dy = DYN[:6] + [DYN[8]]
        yield G(['TYPE E = (ea, eb, ec)'], [], ['OUTPUT v %s 2' % o for o in OPS] + ['OUTPUT 2 %s v' % o for o in OPS] + ['OUTPUT v %s v' % o for o in OPS] + ['OUTPUT -v', 'OUTPUT NOT v', 'OUTPUT v AND TRUE', 'OUTPUT TRUE OR v', 'OUTPUT v', 'OUTPUT (v)', 'OUTPUT v & "s" & v',
                'OUTPUT v = "ab"', "OUTPUT v = 'c'", 'OUTPUT 2.5 * v', 'OUTPUT 5 DIV v', 'OUTPUT "k" < v'], dy, modes='DF')
    elif p == 'C03':
        f = ['FUNCTION f(x : INTEGER) RETURNS INTEGER\nOUTPUT "f", x\nRETURN x\nENDFUNCTION', 'FUNCTION t(x : BOOLEAN) RETURNS BOOLEAN\nOUTPUT "t", x\nRETURN x\nENDFUNCTION']
        v3 = ['DECLARE a, b, c, n : INTEGER']
        ch = ['a <- 1; b <- 3; c <- 1', 'a <- 3; b <- 1; c <- -1', 'a <- 2; b <- 2; c <- 2', 'a <- 0; b <- 5; c <- 3', 'a <- b; b <- b + 2', 'c <- -c']
        yield G(f, v3, ['FOR i <- a TO b STEP c; OUTPUT i; n <- n + 1; IF n > 15 THEN; BREAK; ENDIF; NEXT i; OUTPUT "e", i', 'FOR i <- a TO b; OUTPUT i; NEXT i; OUTPUT "e", i', 'FOR i <- f(a) TO f(b) STEP f(c); OUTPUT i; n <- n + 1; IF n > 15 THEN; BREAK; ENDIF; NEXT i; OUTPUT "e", i',
                'FOR i <- a TO b; FOR j <- i TO b STEP 2; OUTPUT i, j; NEXT j; NEXT i; OUTPUT i', 'FOR i <- 1 TO 3; IF i = a THEN; CONTINUE; ENDIF; IF i = b THEN; BREAK; ENDIF; OUTPUT i; NEXT i; OUTPUT "e", i'], [x for x in ch if x != 'c <- -c'] + ['c <- 1; a <- a + 1'])
        yield G(f, v3, ['CASE OF a; b: OUTPUT "b"; c: OUTPUT "c"; OTHERWISE: OUTPUT "o"; ENDCASE', 'CASE OF a; f(b): OUTPUT "b"; f(c): OUTPUT "c"; ENDCASE', 'CASE OF a; b TO c: OUTPUT "in"; OTHERWISE: OUTPUT "out"; ENDCASE', 'CASE OF a; 1 TO b: OUTPUT "lo"; b + 1 TO b + c: OUTPUT "hi"; OTHERWISE: OUTPUT "out"; ENDCASE',
                'CASE OF a; f(b) TO f(c): OUTPUT "in"; f(1): OUTPUT "one"; ENDCASE', 'CASE OF a; 1: OUTPUT "1"; a <- b; 2: OUTPUT "2"; 3: OUTPUT "3"; b <- a; OTHERWISE: OUTPUT "o"; ENDCASE', 'CASE OF a; b * 1: OUTPUT "b"; -c: OUTPUT "-c"; ENDCASE',
                'IF a < b THEN; OUTPUT "lt"; ELSE IF a = b THEN; OUTPUT "eq"; ELSE; OUTPUT "gt"; ENDIF', 'IF t(a = b) THEN; OUTPUT 1; ELSE IF t(a > c) THEN; OUTPUT 2; ELSE IF t(c < 0) THEN; OUTPUT 3; ENDIF', 'IF f(a) = f(b) THEN; IF b > c THEN; OUTPUT "x"; ELSE; OUTPUT "y"; ENDIF; ENDIF',
                'n <- a; WHILE n < b DO; OUTPUT n; n <- n + 1; ENDWHILE; OUTPUT "e", n', 'n <- a; REPEAT; OUTPUT n; n <- n + 1; UNTIL n >= b; OUTPUT "e", n', 'n <- a; WHILE t(n < b) DO; n <- n + 2; IF n = c THEN; CONTINUE; ENDIF; OUTPUT n; ENDWHILE; OUTPUT "e", n',
                'n <- 0; REPEAT; n <- n + 1; IF n = c THEN; BREAK; ENDIF; OUTPUT n; UNTIL n >= b; OUTPUT "e", n'], ch)
        # conditions, selectors and clauses of changing type
        dy = ['v <- 2', 'v <- 2.0', 'v <- "ab"', "v <- 'c'", 'v <- TRUE', 'v <- eb', '']
        yield G(['TYPE E = (ea, eb, ec)'], [], ['IF v THEN; OUTPUT "t"; ELSE; OUTPUT "f"; ENDIF', 'WHILE v DO; OUTPUT "w"; v <- FALSE; ENDWHILE', 'REPEAT; OUTPUT "r"; UNTIL v', 'FOR i <- v TO 3; OUTPUT i; NEXT i', 'FOR i <- 1 TO v; OUTPUT i; NEXT i', 'FOR i <- 1 TO 3 STEP v; OUTPUT i; NEXT i',
                'FOR v <- 1 TO 3; OUTPUT v; NEXT v; OUTPUT v', 'CASE OF v; 2: OUTPUT "i"; "ab": OUTPUT "s"; \'c\': OUTPUT "c"; TRUE: OUTPUT "b"; eb: OUTPUT "e"; OTHERWISE: OUTPUT "o"; ENDCASE', 'w <- 2; CASE OF w; v: OUTPUT "m"; OTHERWISE: OUTPUT "o"; ENDCASE', 'IF NOT v THEN; OUTPUT "n"; ENDIF',
                'w <- "ab"; CASE OF w; v: OUTPUT "m"; OTHERWISE: OUTPUT "o"; ENDCASE', 'w <- eb; CASE OF w; v: OUTPUT "m"; OTHERWISE: OUTPUT "o"; ENDCASE', 'w <- 2; CASE OF w; 1 TO v: OUTPUT "m"; OTHERWISE: OUTPUT "o"; ENDCASE'], dy, modes='DF')
    elif p == 'C04':
        d = ['DECLARE g : INTEGER', 'PROCEDURE iv(x : INTEGER)\nx <- x + 1\nOUTPUT "iv", x\nENDPROCEDURE', 'PROCEDURE ir(BYREF x : INTEGER)\nx <- x * 2\nOUTPUT "ir", x\nENDPROCEDURE', 'FUNCTION fi(x : INTEGER) RETURNS INTEGER\nDECLARE l : INTEGER\nl <- l + x\ng <- g + 1\nIF x > 5 THEN\nRETURN l\nENDIF\nRETURN x * 10\nENDFUNCTION',
             'PROCEDURE two(BYREF x, y : INTEGER)\nx <- x + 1\ny <- y + 10\nOUTPUT "two", x, " ", y\nENDPROCEDURE', 'FUNCTION rec(n : INTEGER) RETURNS INTEGER\nDECLARE l : INTEGER\nl <- n\nIF n <= 0 THEN\nRETURN 0\nENDIF\nRETURN rec(n - 1) + l\nENDFUNCTION', 'PROCEDURE loc(c : BOOLEAN)\nIF c THEN\nDECLARE l : INTEGER\nl <- 5\nENDIF\nOUTPUT "loc"\nOUTPUT l\nENDPROCEDURE',
             'FUNCTION sometimes(x : INTEGER) RETURNS INTEGER\nIF x > 3 THEN\nRETURN x\nENDIF\nENDFUNCTION']
        vs = ['DECLARE a, k : INTEGER', 'DECLARE arr : ARRAY[1:3] OF INTEGER', 'k <- 1', 'a <- 3', 'TYPE RR\nDECLARE n, m : INTEGER\nENDTYPE', 'DECLARE r : RR']
        obs = '; OUTPUT a, " ", k, " ", arr[1], arr[2], arr[3], " ", r.n, " ", r.m, " ", g'
        ch = ['a <- 7', 'k <- 2', 'k <- 3; a <- 1', 'arr[k] <- 4', 'r.n <- a; g <- 2', 'k <- 4']
        yield G(d, vs, [s + obs for s in ('CALL iv(a)', 'CALL ir(a)', 'CALL ir(arr[k])', 'CALL ir(r.n)', 'CALL two(a, arr[k])', 'CALL two(a, a)', 'CALL two(arr[k], arr[1])', 'a <- fi(a)', 'a <- fi(a + k) + fi(k)', 'a <- rec(a)', 'CALL loc(a > 3)', 'a <- sometimes(a)', 'CALL iv(arr[k])', 'CALL ir(g)', 'arr[k] <- fi(arr[k])')], ch, n=3)
        yield G(d + TYPES[:1], [], ['CALL iv(v); OUTPUT "ok", v', 'CALL ir(v); OUTPUT "ok", v', 'OUTPUT fi(v)', 'x <- 1; CALL two(x, v); OUTPUT x, v', 'CALL loc(v)', 'OUTPUT rec(v)', 'OUTPUT g', 'CALL v', 'OUTPUT v(1)'], DYN[:6] + DYN[7:], modes='DF')
    elif p == 'C05':
        w = ['DECLARE i : INTEGER', 'DECLARE r : REAL', 'DECLARE s : STRING', 'DECLARE c : CHAR', 'DECLARE b : BOOLEAN', 'DECLARE d : DATE', 'DECLARE e : E', 'DECLARE arr : ARRAY[1:2] OF INTEGER']
        obs = 'OUTPUT "ok", i, " ", r, " ", s, c, b, e'
        pi = ['PROCEDURE tk(x : %s)\nOUTPUT "tk"\nENDPROCEDURE' % t for t in ('INTEGER',)] + ['FUNCTION give(x : STRING) RETURNS CHAR\nRETURN x\nENDFUNCTION', 'PROCEDURE tr(x : REAL)\nOUTPUT "tr", x\nENDPROCEDURE', 'PROCEDURE ts(x : STRING)\nOUTPUT "ts", x\nENDPROCEDURE', 'PROCEDURE tc(x : CHAR)\nOUTPUT "tc", x\nENDPROCEDURE']
        yield G(TYPES[:1] + pi, w, [s + '; ' + obs for s in ('i <- v', 'r <- v', 's <- v', 'c <- v', 'b <- v', 'd <- v', 'e <- v', 'arr[2] <- v; OUTPUT arr[2]', 'CALL tk(v)', 'CALL tr(v)', 'CALL ts(v)', 'CALL tc(v)', 'OUTPUT give(v)', 'w <- v; OUTPUT w', 'r <- i; i <- v')], DYN[:7] + DYN[7:8], modes='DF')
        # the target differs
        tg = ['DECLARE v : INTEGER', 'DECLARE v : REAL', 'DECLARE v : STRING', 'DECLARE v : CHAR', 'DECLARE v : BOOLEAN', 'DECLARE v : DATE', '', 'DECLARE v : ARRAY[1:2] OF INTEGER']
        yield G([], [], ['v <- %s; OUTPUT v' % x for x in ('5', '2.5', '"q"', '"long"', "'z'", 'TRUE', '1/1/2001', 'v')] + ['INPUT v; OUTPUT v', 'v <- v; OUTPUT v', 'FOR v <- 1 TO 2; OUTPUT v; NEXT v'], tg, modes='DE', kw=dict(stdin='5\n2.5\nq\nlong\nTRUE\n7\n8\n'))
        yield G([], ['DECLARE v : REAL', 'DECLARE w : STRING', 'DECLARE x : INTEGER'], ['INPUT v; OUTPUT v', 'INPUT w; OUTPUT w', 'INPUT x; OUTPUT x', 'v <- x; OUTPUT v', 'w <- v & x; OUTPUT w'], ['v <- 1.5', 'x <- 3', 'w <- "k"'], modes='ABDE', kw=dict(stdin='5\n2.5\n\nabc\nTRUE\n7\n8\n'))
    elif p == 'C06':
        vs = ['DECLARE i, j, n : INTEGER', 'DECLARE a, b : ARRAY[1:3] OF INTEGER', 'DECLARE m : ARRAY[0:1, 2:3] OF STRING', 'i <- 1', 'j <- 2']
        ob = '; OUTPUT a[1], a[2], a[3], " ", b[1], b[2], b[3], " ", m[0, 2], m[0, 3], m[1, 2], m[1, 3]'
        yield G([], vs, [s + ob for s in ('a[i] <- j', 'a[i] <- a[j] + 1', 'b <- a', 'a[a[i] + 1] <- i', 'm[i, j] <- "x"', 'm[i MOD 2, j] <- m[0, j] & "y"', 'm[0, i + 1] <- "z"', 'OUTPUT a[i], b[j]', 'OUTPUT m[i MOD 2, j]', 'a[b[i]] <- 4', 'a <- b')],
                ['i <- 2', 'i <- 3; j <- 3', 'j <- 1', 'i <- 0', 'i <- 4; j <- 2', 'a[2] <- 7', 'b[i] <- j'])
        # bounds evaluated anew by each declaration
        yield G(['DECLARE gn : INTEGER'], ['DECLARE n, l : INTEGER', 'l <- 1'], ['DECLARE z : ARRAY[l:n] OF INTEGER; z[2] <- 5; OUTPUT z[2], z[n], z[l]; OUTPUT z[n + 1]', 'DECLARE z, y : ARRAY[1:n, l:2] OF STRING; z[n, l] <- "q"; y <- z; OUTPUT y[n, l], y[1, 2]; OUTPUT y[n, 3]', 'DECLARE z : ARRAY[l:3] OF INTEGER; z[l] <- 1; FOR i <- l TO 3; OUTPUT z[i]; NEXT i; OUTPUT z[l - 1]',
                'DECLARE z : ARRAY[1:gn] OF REAL; gn <- gn + 1; z[1] <- 2; OUTPUT z[gn - 1]; OUTPUT z[gn]'], ['n <- 2', 'n <- 4; gn <- 2', 'n <- 3; l <- 2', 'l <- 0; n <- 2', 'gn <- 3; n <- 1', 'l <- 3; n <- 2'], modes='DF')
        # the array meant by the name differs in shape
        sh = ['DECLARE z : ARRAY[1:2] OF INTEGER', 'DECLARE z : ARRAY[2:3] OF INTEGER', 'DECLARE z : ARRAY[1:2] OF STRING', 'DECLARE z : ARRAY[1:2, 1:2] OF INTEGER', 'DECLARE z : INTEGER', '', 'DECLARE z : ARRAY[-2:2] OF INTEGER']
        yield G(['DECLARE z, w : ARRAY[1:2] OF INTEGER', 'z[1] <- 100'], [], ['z[2] <- z[2] + 5; OUTPUT z[2]', 'OUTPUT z[1]', 'z[1, 2] <- 7; OUTPUT z[1, 2]', 'z <- w; OUTPUT z[1]', 'w <- z; OUTPUT w[1]', 'z[0] <- 1; OUTPUT z[0]', 'OUTPUT z', 'CALL inc(z[2]); OUTPUT z[2]', 'z[3] <- 3; OUTPUT z[3]'], sh, modes='DF')
        g = ['PROCEDURE inc(BYREF x : INTEGER)\nx <- x + 1\nENDPROCEDURE']
        yield G(g + ['DECLARE z : ARRAY[1:2] OF INTEGER'], ['DECLARE k : INTEGER', 'k <- 1'], ['CALL inc(z[k]); OUTPUT z[1], z[2]', 'INPUT z[k]; OUTPUT z[1], z[2]', 'FOR q1 <- 1 TO k; z[q1] <- z[k] + q1; NEXT q1; OUTPUT z[1], z[2]'], ['k <- 2', 'k <- k + 1', 'k <- 1', 'z[k] <- 9'], kw=dict(stdin='4\n5\n6\n7\n'), modes='ABDE')
    elif p == 'C07':
        vs = ['DECLARE x, y : R', 'DECLARE ra : ARRAY[1:3] OF R', 'DECLARE k : INTEGER', 'k <- 1']
        fn = ['FUNCTION id(z : R) RETURNS R\nz.n <- z.n + 1\nz.a[1] <- z.a[1] + 1\nRETURN z\nENDFUNCTION', 'PROCEDURE md(BYREF z : R)\nz.n <- z.n + 10\nz.a[2] <- z.a[2] + 1\nENDPROCEDURE', 'PROCEDURE mv(z : R)\nz.n <- 99\nz.s <- "no"\nENDPROCEDURE']
        ob = '; OUTPUT x.n, x.s, x.a[1], x.a[2], " ", y.n, y.s, y.a[1], y.a[2], " ", ra[1].n, ra[2].n, ra[2].a[1], ra[3].a[2]'
        yield G(TYPES + fn, vs, [s + ob for s in ('y <- x', 'ra[k] <- x', 'x <- ra[k]', 'y <- id(x)', 'x <- id(id(y))', 'CALL md(ra[k])', 'CALL mv(x)', 'ra[k] <- ra[2]', 'x.n <- y.n + 1; y <- x', 'ra[k].a[k] <- x.n; ra[2] <- ra[k]')], ['x.n <- 5; x.a[1] <- 6', 'y.s <- "why"; y.a[2] <- 3', 'k <- 2', 'k <- 3; ra[1].n <- 4', 'x <- y', 'k <- 4'])
        # the record meant by the name has another type
        ty = ['DECLARE x : R; x.n <- 4', 'DECLARE x : Q; x.n <- "t"', 'DECLARE x : INTEGER', '', 'DECLARE x : R; x.s <- "u"; x.a[2] <- 2', 'DECLARE x : ARRAY[1:2] OF R']
        yield G(TYPES + fn + ['DECLARE x, w : R', 'DECLARE v : Q', 'x.n <- 1000'], [], ['OUTPUT x.n', 'x.n <- 3; OUTPUT x.n', 'OUTPUT x.s', 'x.s <- "k"; OUTPUT x.s', 'OUTPUT x.m', 'x.a[1] <- 2; OUTPUT x.a[1]', 'w <- x; OUTPUT w.n', 'x <- w; OUTPUT x.n', 'v <- x; OUTPUT v.n', 'CALL mv(x); OUTPUT "ok"', 'x[1].n <- 5; OUTPUT x[1].n', 'y <- id(x); OUTPUT y.n', 'x.n <- "str"; OUTPUT x.n'], ty, modes='DF')
        # local type definitions
        yield G(['TYPE T\nDECLARE n : INTEGER\nENDTYPE'], [], ['DECLARE x : T; x.n <- 3; OUTPUT x.n', 'DECLARE x, y : T; x.n <- "s"; y <- x; OUTPUT y.n', 'DECLARE x : T; OUTPUT x.m'], ['TYPE T; DECLARE n : STRING; ENDTYPE', 'TYPE T; DECLARE m : INTEGER; ENDTYPE', '', 'TYPE T = (ta, tb)', 'TYPE T = ^INTEGER'], modes='DF')
    elif p == 'C08':
        g = ['PROCEDURE br(BYREF x : INTEGER)\nx <- x + 1\nENDPROCEDURE', 'TYPE P = ^INTEGER', 'DECLARE p : P', 'OPENFILE "r" FOR RANDOM', 'DECLARE z : INTEGER', 'z <- 40', 'PUTRECORD "r", z', 'OPENFILE "t" FOR WRITE', 'WRITEFILE "t", "line"', 'CLOSEFILE "t"', 'OPENFILE "t" FOR READ']
        ch = ['CONSTANT k = 3', 'k <- 4', 'DECLARE k : INTEGER', '', 'DECLARE k : STRING', 'CONSTANT k = "str"', 'CONSTANT k = -2.5']
        st = ['k <- 8; OUTPUT k', 'k <- k; OUTPUT k', 'INPUT k; OUTPUT k', 'READFILE "t", k; OUTPUT k', 'GETRECORD "r", k; OUTPUT k', 'FOR k <- 1 TO 2; OUTPUT k; NEXT k', 'CALL br(k); OUTPUT k', 'p <- ^k; p^ <- 9; OUTPUT k', 'OUTPUT k', 'DECLARE k : REAL; OUTPUT k', 'CONSTANT k = 11; OUTPUT k']
        for gl in ([], ['CONSTANT k = 1'], ['k <- 2']):
            yield G(g + gl, [], st, ch, modes='DE', kw=dict(stdin='6\n7\n8\n9\n6\n6\n6\n'))
        yield G(g, [], st, ch, modes='A', kw=dict(stdin='6\n7\n8\n9\n'))
        yield G(g, [], [x for x in st if 'INPUT' not in x], ch, modes='C')
        yield G(g, [], [x for x in st if 'INPUT' not in x], ch, modes='F')
    elif p == 'C09':
        fn = ['PROCEDURE br(BYREF z : INTEGER)\nz <- z + 1\nENDPROCEDURE', 'DECLARE gp : P', 'PROCEDURE dead()\nDECLARE l : INTEGER\nl <- 66\ngp <- ^l\nENDPROCEDURE']
        vs = ['DECLARE x, y, k : INTEGER', 'DECLARE a : ARRAY[1:2] OF INTEGER', 'DECLARE r : R', 'DECLARE p, pq : P', 'k <- 1', 'x <- 5', 'y <- 7']
        ob = '; OUTPUT x, " ", y, " ", a[1], a[2], r.n'
        yield G(TYPES + fn, vs, [s + ob for s in ('p^ <- p^ + 1', 'OUTPUT p^', 'pq <- p; pq^ <- 9', 'p <- ^a[k]; p^ <- 3', 'CALL br(p^)', 'x <- p^', 'OUTPUT gp^', 'gp^ <- 2', 'p <- pq; OUTPUT p^', 'pq <- ^x; p^ <- pq^ + 1')], ['p <- ^x', 'p <- ^y; k <- 2', 'p <- ^a[k]', 'p <- ^r.n; pq <- p', 'CALL dead', 'gp <- ^y', 'gp <- p; x <- x + 1'])
        ty = ['DECLARE p : P; p <- ^gi', 'DECLARE p : PS; p <- ^gs', 'DECLARE p : P', 'DECLARE p : INTEGER', '', 'DECLARE l : INTEGER; l <- 4; DECLARE p : P; p <- ^l', 'DECLARE l : STRING; l <- "loc"; DECLARE p : PS; p <- ^l']
        yield G(TYPES + fn + ['DECLARE gi, hi : INTEGER', 'DECLARE gs, hs : STRING', 'gi <- 1', 'gs <- "g"', 'DECLARE p : P', 'p <- ^hi'], [], ['OUTPUT p^', 'p^ <- 5; OUTPUT gi, hi, gs', 'p^ <- "new"; OUTPUT gs', 'p <- ^gi; OUTPUT p^', 'p <- ^hs; OUTPUT p^', 'gp <- p; OUTPUT gp^', 'OUTPUT gp^; gp <- p', 'CALL br(p^); OUTPUT gi, hi', 'p^ <- p^; OUTPUT p^', 'q2 <- p; OUTPUT q2^'], ty, modes='DF')
        tgt = ['DECLARE v : INTEGER; v <- 3', 'DECLARE v : STRING; v <- "s"', '', 'DECLARE v : REAL', 'v <- 8', 'DECLARE v : ARRAY[1:2] OF INTEGER']
        yield G(TYPES + fn + ['DECLARE v : INTEGER', 'v <- 77', 'DECLARE p : P', 'DECLARE s : PS'], [], ['p <- ^v; OUTPUT p^', 'p <- ^v; p^ <- p^ + 1; OUTPUT v', 's <- ^v; OUTPUT s^', 'p <- ^v[2]; p^ <- 4; OUTPUT p^', 'IF q > 1 THEN; OUTPUT p^; ENDIF; p <- ^v'], tgt, modes='DF')
    elif p in ('C13', 'C14', 'C15', 'C16'):
        yield from files(p)
    elif p == 'C17':
        vs = ['DECLARE s : STRING', 'DECLARE i, n : INTEGER', 'DECLARE x : REAL', 'DECLARE c : CHAR', 's <- "hello"', 'i <- 2', 'n <- 3']
        ch = ['s <- "Wo"', 'i <- 1; n <- 0', 's <- "12.5"; i <- 4', 'n <- 5; i <- 1', 's <- ""; n <- 1', "c <- 'q'; x <- -2.5", 'i <- 70; x <- 3.0; s <- "77"']
        yield G([], vs, ['OUTPUT ' + e for e in ('LEFT(s, n)', 'RIGHT(s, n)', 'MID(s, i, n)', 'LENGTH(s)', 'TO_UPPER(s)', 'TO_LOWER(s)', 'LCASE(c)', 'UCASE(c)', 'ASC(c)', 'CHR(i)', 'IS_NUM(s)', 'STR_TO_NUM(s)', 'NUM_TO_STR(x)', 'NUM_TO_STR(i)', 'INT(x)', 'REAL(s)', 'INTEGER(s)', 'STRING(i) & STRING(x)',
                'LEFT(s, n) & RIGHT(s, LENGTH(s) - n) = s', 'LEFT(MID(s, i, 1) & s, n)', 'TO_UPPER(LEFT(s, 1)) & MID(s, 2, LENGTH(s) - 1)', 'BOOLEAN(s)', 'INTEGER(x)', 'REAL(i)', 'CHAR(s)', 'INTEGER(c)')], ch)
        yield G(['TYPE E = (ea, eb, ec)'], [], ['OUTPUT ' + e for e in ('LENGTH(v)', 'LEFT(v, 1)', 'RIGHT("abc", v)', 'MID("abc", v, 1)', 'TO_UPPER(v)', 'UCASE(v)', 'ASC(v)', 'CHR(v)', 'IS_NUM(v)', 'STR_TO_NUM(v)', 'NUM_TO_STR(v)', 'INT(v)', 'REAL(v)', 'INTEGER(v)', 'STRING(v)', 'BOOLEAN(v)', 'CHAR(v)', 'DAY(v)')],
                ['v <- 2', 'v <- 2.5', 'v <- "ab"', "v <- 'c'", 'v <- TRUE', 'v <- 29/2/2024', ''], modes='DF')
    elif p == 'C18':
        vs = ['DECLARE d, m, y : INTEGER', 'DECLARE a, b : DATE', 'd <- 1', 'm <- 2', 'y <- 2024', 'a <- 29/2/2024', 'b <- a']
        ch = ['d <- 29', 'm <- 1; d <- 31', 'y <- 2023', 'a <- 1/3/2024', 'b <- 28/2/2023', 'y <- 1900; m <- 2', 'a <- b']
        yield G([], vs, ['OUTPUT ' + e for e in ('SETDATE(d, m, y)', 'DAY(SETDATE(d, m, y)), MONTH(a), YEAR(b)', 'DAYINDEX(a)', 'a = b, a <> b', 'a < b, a <= b', 'a > b, a >= b', 'DAYINDEX(SETDATE(d, m, y))', 'a', 'a < SETDATE(d, m, y)', 'DAY(a), DAY(b)')] + ['a <- SETDATE(d, m, y); OUTPUT a, b', 'b <- a; OUTPUT b', 'IF a < b THEN; b <- a; ENDIF; OUTPUT a, b'], ch)
    elif p == 'C19':
        vs = ['DECLARE e : E', 'DECLARE f : F', 'DECLARE k : INTEGER', 'e <- ea', 'f <- fa']
        ch = ['e <- ec', 'k <- 1', 'k <- -4; f <- fb', 'k <- 5; e <- eb', 'e <- e + k', 'f <- fb']
        yield G(TYPES, vs, ['e <- e + k; OUTPUT e', 'OUTPUT e - k, " ", f + k', 'OUTPUT e = ec, f = fa, e <> ea', 'f <- f + 1; OUTPUT f', 'CASE OF e; ea: OUTPUT "A"; eb: OUTPUT "B"; OTHERWISE: OUTPUT "C"; ENDCASE', 'OUTPUT ea + k, " ", fb - k', 'e <- f; OUTPUT e', 'IF e = eb THEN; e <- ea; ENDIF; OUTPUT e'], ch)
        ty = ['DECLARE x : E; x <- ec', 'DECLARE x : F; x <- fb', 'x <- eb', 'x <- fa', '', 'DECLARE x : INTEGER; x <- 1', 'DECLARE x : E']
        yield G(TYPES, ['DECLARE e : E', 'DECLARE f : F'], ['OUTPUT x', 'OUTPUT x + 1', 'x <- x - 1; OUTPUT x', 'e <- x; OUTPUT e', 'f <- x; OUTPUT f', 'OUTPUT x = eb', 'OUTPUT x = fb', 'x <- ea; OUTPUT x', 'x <- fa; OUTPUT x', 'CASE OF x; eb: OUTPUT "eb"; fb: OUTPUT "fb"; ec: OUTPUT "ec"; OTHERWISE: OUTPUT "o"; ENDCASE'], ty, modes='DF')
        # local definitions of the type itself
        td = ['TYPE T = (ta, tb)', 'TYPE T = (ta, tb, tc, td)', 'TYPE T = (tc, tb, ta)', '', 'TYPE T; DECLARE n : INTEGER; ENDTYPE', 'TYPE T = ^INTEGER']
        for gl in ([], ['TYPE T = (tx, ty, tz)']):
            yield G(gl, [], ['DECLARE x : T; x <- ta; OUTPUT x, x + 1, " ", x + 2', 'DECLARE x : T; OUTPUT x; x <- tb; OUTPUT x - 1', 'OUTPUT tb + 1', 'DECLARE x, y : T; x <- tc; y <- x; OUTPUT x = y, y = tc', 'DECLARE x : T; x <- tx; OUTPUT x + 2'], td, modes='DF')


def files(p):
    if p in ('C13', 'C14'):
        g = ['TYPE E = (ea, eb, ec)', 'TYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF CHAR\nENDTYPE', 'DECLARE f, h : STRING', 'DECLARE k : INTEGER', 'DECLARE i, j : INTEGER', 'OPENFILE "a" FOR RANDOM', 'OPENFILE "b" FOR RANDOM', 'PUTRECORD "b", i', 'f <- "a"', 'k <- 1', 'i <- 5']
        ch = ['f <- "b"', 'f <- "a"; k <- 2', 'k <- k + 1; i <- i + 10', 'i <- 70; k <- 1', 'CLOSEFILE f; OPENFILE f FOR RANDOM', 'k <- 0', 'SEEK f, 1']
        if p == 'C14':
            dump = '; FOR t <- 1 TO 2; SEEK "a", 1; GETRECORD "a", j; SEEK "b", t; GETRECORD "b", j; OUTPUT j; NEXT t'
            st = ['PUTRECORD f, i', 'SEEK f, k; PUTRECORD f, i', 'SEEK f, k; GETRECORD f, j; OUTPUT j', 'GETRECORD f, j; OUTPUT j; PUTRECORD f, i', 'SEEK f, k; OUTPUT "ok"', 'PUTRECORD f, i; SEEK f, k; GETRECORD f, j; OUTPUT j', 'SEEK f, k; PUTRECORD f, i; k <- k + 1; SEEK f, 1; GETRECORD f, j; OUTPUT j',
                  'CLOSEFILE f; OPENFILE f FOR RANDOM; GETRECORD f, j; OUTPUT j', 'SEEK f, k; SEEK f, 1; PUTRECORD f, i']
            yield G(g, [], st + [s + dump for s in st[:3]], ch, modes='ABC')
        dy = ['v <- 7', 'v <- 2.5', 'v <- "a\\nb#"', "v <- 'c'", 'v <- TRUE', 'v <- 29/2/2024', 'v <- eb', 'DECLARE v : R; v.s <- "in"; v.n <- 3']
        rd = 'SEEK "a", 1; '
        yield G(g, [], [rd + 'PUTRECORD "a", v; ' + rd + 'GETRECORD "a", v; OUTPUT "same"', 'PUTRECORD f, v; IF q > 1 THEN; SEEK f, 1; GETRECORD f, v; OUTPUT "got"; ENDIF', rd + 'PUTRECORD "a", v; DECLARE x : INTEGER; ' + rd + 'GETRECORD "a", x; OUTPUT x', rd + 'PUTRECORD "a", v; CLOSEFILE "a"; OPENFILE "a" FOR RANDOM; GETRECORD "a", v; OUTPUT "re"',
                rd + 'PUTRECORD "a", v; DECLARE x : STRING; ' + rd + 'GETRECORD "a", x; OUTPUT x', 'GETRECORD "b", v; OUTPUT v'], dy if p == 'C13' else dy[:6:2], modes='DF')
    else:
        g = ['DECLARE f : STRING', 'DECLARE l : STRING', 'OPENFILE "a" FOR WRITE', 'WRITEFILE "a", "a1"', 'WRITEFILE "a", "a2"', 'CLOSEFILE "a"', 'OPENFILE "b" FOR WRITE', 'WRITEFILE "b", "b1"', 'WRITEFILE "b", ""', 'WRITEFILE "b", "b3"', 'CLOSEFILE "b"', 'f <- "a"', 'OPENFILE "a" FOR READ', 'OPENFILE "b" FOR READ']
        ch = ['f <- "b"', 'f <- "a"', 'CLOSEFILE f', 'OPENFILE f FOR READ', 'CLOSEFILE f; OPENFILE f FOR APPEND; WRITEFILE f, "more"; CLOSEFILE f; OPENFILE f FOR READ', 'l <- "x"; f <- "c"', '']
        st = ['READFILE f, l; OUTPUT l', 'OUTPUT EOF(f)', 'WHILE NOT EOF(f) DO; READFILE f, l; OUTPUT l; ENDWHILE', 'IF NOT EOF(f) THEN; READFILE f, l; OUTPUT l, EOF(f); ENDIF', 'CLOSEFILE f; OUTPUT "closed"', 'OPENFILE f FOR READ; READFILE f, l; OUTPUT l', 'OPENFILE f FOR WRITE; WRITEFILE f, l; CLOSEFILE f', 'WRITEFILE f, l', 'OUTPUT EOF("a"), EOF("b")',
              'CLOSEFILE f; OPENFILE f FOR APPEND; WRITEFILE f, l; CLOSEFILE f; OPENFILE f FOR READ', 'IF EOF(f) THEN; CLOSEFILE f; OPENFILE f FOR READ; ENDIF; READFILE f, l; OUTPUT l']
        yield G(g, [], st, ch, modes='ABC')
        w = ['DECLARE f : STRING', 'DECLARE k : INTEGER', 'OPENFILE "a" FOR WRITE', 'OPENFILE "b" FOR WRITE', 'f <- "a"']
        yield G(w, [], ['WRITEFILE f, k', 'WRITEFILE f, "x" & k', 'OPENFILE f FOR WRITE', 'OPENFILE f FOR APPEND; WRITEFILE f, k; CLOSEFILE f', 'CLOSEFILE f', 'CLOSEFILE f; OPENFILE f FOR READ; READFILE f, s; OUTPUT s; CLOSEFILE f; OPENFILE f FOR APPEND', 'OPENFILE f FOR RANDOM; PUTRECORD f, k; CLOSEFILE f', 'SEEK f, 1'],
                ['f <- "b"', 'f <- "a"; k <- k + 1', 'CLOSEFILE f', 'f <- "c"; k <- 9', 'WRITEFILE f, "ch"', 'OPENFILE f FOR APPEND'], modes='ABC')
        yield G(['TYPE E = (ea, eb, ec)'] + w, [], ['WRITEFILE "a", v; OUTPUT "ok"', 'WRITEFILE v, "t"', 'OPENFILE v FOR WRITE', 'CLOSEFILE v; OUTPUT "closed"', 'OUTPUT EOF(v)', 'WRITEFILE "b", v & "t"'], ['v <- 7', 'v <- 2.5', 'v <- "a"', "v <- 'b'", 'v <- TRUE', 'v <- 29/2/2024', 'v <- "c"', ''], modes='DF')


MODES = dict(A=A, B=B, C=C, D=D, E=E, F=F)


def cases(tier, prop, n=None, modes=None, kw=None):
    for g in groups(prop):
        for st in g.stmts:
            for cs in itertools.product(g.changes, repeat=n or g.n):
                for m in g.modes + ('E' if modes and 'E' in modes and 'F' in g.modes else ''):
                    if not modes or m in modes:
                        yield (run, m, MODES[m](g, st, cs), dict(g.kw, **kw) if kw else g.kw)
