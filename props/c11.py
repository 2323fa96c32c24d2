"""C11: syntax is checked before anything runs, and diagnostics point at the fault."""
import itertools

import client
import psref
from engine import Mismatch
from corpus import PROGRAMS, STDIN, FILES
from c10 import Prog
from gen import session
import merge
import rerun
import scale

INFO = dict(
    rule='every single-token edit (deletion, duplication, swap, replacement by and insertion of every token kind) and every single-character lexical fault at every position of a '
         'corpus with every construct, preceded by statements with side effects; every failing statement kind x enclosing construct x call site form x call depth for runtime '
         'tracebacks; every REPL session of two (thorough: three) of the listed single- and multi-line entries, failing and not; status, side effects, number and kind of diagnostics and line numbers are compared with the reference parser and evaluator',
    assumptions=['for faults that are not confined to one line only the range of line and column is checked'])

SIDE = 'OUTPUT "start"\nOPENFILE "side.txt" FOR WRITE\nWRITEFILE "side.txt", "x"\nCLOSEFILE "side.txt"\nINPUT qq\nOUTPUT qq\n'
NSIDE = SIDE.count('\n')
TOKS = ['+', '*', '(', ')', '[', ']', ',', ':', '.', '^', '<-', '=', '<', '&', 'x', '5', '"s"', '\n', 'IF', 'THEN', 'ELSE', 'ENDIF', 'CASE', 'OF', 'ENDCASE', 'OTHERWISE', 'WHILE', 'DO', 'ENDWHILE', 'REPEAT', 'UNTIL',
        'FOR', 'TO', 'STEP', 'NEXT', 'PROCEDURE', 'ENDPROCEDURE', 'FUNCTION', 'ENDFUNCTION', 'RETURNS', 'RETURN', 'CALL', 'BYREF', 'DECLARE', 'CONSTANT', 'TYPE', 'ENDTYPE', 'ARRAY', 'INTEGER', 'NOT', 'AND', 'DIV',
        'OUTPUT', 'INPUT', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE', 'SEEK', 'GETRECORD', 'PUTRECORD', 'READ', 'RANDOM', 'TRUE', '1/1/2000', '1.5', "'c'", '-', '/', '//', '<>', '>=', 'BREAK', 'MOD']
QUICK_TOKS = ['+', '(', ')', '[', ']', ',', ':', '.', '^', '<-', '=', 'x', '5', '"s"', '\n', 'THEN', 'ELSE', 'ENDIF', 'OF', 'ENDCASE', 'DO', 'ENDWHILE', 'UNTIL', 'TO', 'NEXT', 'ENDPROCEDURE', 'RETURNS', 'ENDFUNCTION',
              'ENDTYPE', 'INTEGER', 'NOT', 'OUTPUT', '1/1/2000', 'DECLARE', 'IF']
CHARS = ['$', '@', '!', '?', ';', '{', '}', '~', '#', '%', '\\', '`', '|', '"', "'", '==', '_', '\x80', '\xff', '\x01', '\x0b', '\x0c', '\r', '.', "''", "'ab'", "'\\q'", '"\\q"', '()', '[]', '""', '99999999999999999999',
         '1.2.3', '5x', 'x5', '<<', '>>', '><', '=>', '=<', '<--', '- -', ':=', '++', '^^', '**', '!=', '&&', '||', '||', '\x00']


def spans(name):
    s = PROGRAMS[name]
    try:
        toks = psref.lex(s)
    except psref.SyntaxErr:
        return []
    starts = Prog(name).starts
    out = []
    for a, b in zip(toks, toks[1:]):
        p = starts[a.line - 1] + a.col - 1
        if a.t == 'NL':
            out.append((p, p + 1, a))
            continue
        e = starts[b.line - 1] + b.col - 1
        seg = s[p:e]
        if '//' in seg and a.t not in ('STRING', 'CHAR'):
            seg = seg[:seg.index('//')]
        out.append((p, p + len(seg.rstrip(' \t\n')), a))
    return out


def in_range(d, src):
    """Line and column name a place of the source."""
    lines = src.split('\n')
    if not 1 <= d.line <= len(lines) + 1:
        raise Mismatch('the diagnostic names line %d of a source of %d lines' % (d.line, len(lines)))
    n = len(lines[d.line - 1]) if d.line <= len(lines) else 0
    if d.column is not None and not 0 <= d.column <= n + 2:
        raise Mismatch('the diagnostic names column %d of a line of %d characters' % (d.column, n))


def faulty(ctx, src, line=None):
    """line: where the edit was made."""
    src = SIDE + src
    m = psref.Model(stdin=STDIN, **dict(steps=20000, depth=60))
    serr = None
    try:
        m.parse(src if src.endswith('\n') else src + '\n')
    except psref.SyntaxErr as e:
        serr = e
    except psref.Unspecified:
        ctx.run(src, stdin=STDIN, files=FILES)
        return
    if serr is None:
        x, r = ctx.diff(src, stdin=STDIN, files=FILES, steps=30000)
        for d in client.parse_diags(r.err):
            if x is not None and d.line != 0:
                in_range(d, src)
        return
    r = ctx.run(src, stdin=STDIN, files=FILES, listing=True)
    ds = ctx.orderly(r)
    if r.code != 1:
        raise Mismatch('a program with a syntax error on line %s was accepted' % serr.line)
    if ds[0].kind != 'syntax':
        raise Mismatch('%s error instead of a syntax error' % ds[0].kind)
    out = '\n'.join(l for l in r.out.split('\n') if not l.startswith('Warning on line'))
    if out.strip('\n'):
        raise Mismatch('something ran before the syntax error: stdout %r' % r.out)
    if set(r.files) != {'in.txt'} or r.files['in.txt'] != FILES[0][3]:
        raise Mismatch('files were touched before the syntax error: %r' % r.files)
    in_range(ds[0], src)
    if line is not None and serr.line == line + NSIDE and ds[0].line != serr.line:
        raise Mismatch('the syntax error on line %d is reported on line %d' % (serr.line, ds[0].line))
    ctx.validated += 1
    ctx.steps += 1
    ctx.observe(('syntax', r.err))


def token_edits(name, toks):
    s = PROGRAMS[name]
    sp = spans(name)
    for k, (a, e, t) in enumerate(sp):
        l = t.line
        yield s[:a] + s[e:], l                                                # deleted
        yield s[:e] + ' ' + s[a:e] + s[e:], l                                 # duplicated
        if k + 1 < len(sp):
            b, f, u = sp[k + 1]
            yield s[:a] + s[b:f] + ' ' + s[a:e] + s[f:], l if u.t != 'NL' and t.t != 'NL' else None          # swapped
            yield s[:a] + s[f:], l if u.t != 'NL' and t.t != 'NL' else None
        for x in toks:
            yield s[:a] + x + ' ' + s[e:], l if x != '\n' and t.t != 'NL' else None
            yield s[:a] + ' ' + x + ' ' + s[a:], l if x != '\n' else None


def char_edits(name):
    s = PROGRAMS[name]
    line = 1
    for i in range(len(s) + 1):
        for c in CHARS:
            yield s[:i] + c + s[i:], line if c not in ('"', "'", '\\', '""', "''") else None
        if i < len(s):
            yield s[:i] + s[i + 1:], line if s[i] not in '"\'\n\\' else None
            if s[i] == '\n':
                line += 1


# ---- runtime errors: the failing statement, what surrounds it, how it is reached
FAILING = ['OUTPUT 1 / 0', 'zz <- 10 DIV 0', 'OUTPUT nosuch', 'gi <- "text"', 'ga[9] <- 1', 'OUTPUT ga[0]', 'OUTPUT gr.nope', 'gr.n <- "q"', 'OUTPUT gp^', 'gp^ <- 5', 'CALL nosuchproc', 'OUTPUT nosuchfn(1)', 'CALL okp(1, 2)',
           'CALL okp("x")', 'CALL okr(5)', 'OUTPUT okf("x")', 'CLOSEFILE "n.txt"', 'OPENFILE "none.txt" FOR READ', 'READFILE "n.txt", gs', 'WRITEFILE "n.txt", 1', 'SEEK "n.txt", 1', 'GETRECORD "n.txt", gi',
           'PUTRECORD "n.txt", gi', 'OUTPUT EOF("n.txt")', 'OUTPUT LEFT("a", 5)', 'OUTPUT MID("abc", 0, 1)', 'gd <- 30/2/2001', 'OUTPUT SETDATE(31, 4, 2001)', 'IF gi THEN\nOUTPUT 1\nENDIF', 'WHILE "x" DO\nENDWHILE',
           'FOR gs <- 1 TO 2\nNEXT', 'FOR i <- 1 TO "x"\nNEXT i', 'OUTPUT NOT 5', 'OUTPUT -"x"', 'OUTPUT "a" + 1', 'OUTPUT TRUE & 5 & gr', 'CONSTANT CC = 6', 'CC <- 6', 'DECLARE ge : NoType', 'ge <- fa', 'OUTPUT ga', 'OUTPUT 5 < "x"',
           'INPUT CC', 'ga[1.5] <- 1', 'ga[1, 1] <- 1', 'gi <- ga', 'gr <- gi', 'gp <- ^gs', 'BREAK', 'RETURN 1 + gr', 'OUTPUT INTEGER(1/1/2000)', 'TYPE E = (ea)', 'OUTPUT okf(okf(1 DIV 0))', 'ga[okf(1) DIV 0] <- 1', 'OUTPUT 1, 2, 3 / 0, 4',
           'PROCEDURE okp(x : INTEGER)\nENDPROCEDURE', 'DECLARE lz : ARRAY[2:1] OF INTEGER', 'OUTPUT badf()', 'CALL badp', 'CALL deep(2)', 'OUTPUT deepf(2)', 'gi <- 1 + badf() * 2', 'CALL okr(ga[7])', 'CALL okp(badf())', 'OUTPUT okf(badf())',
           'ga[badf()] <- 3', 'IF badf() = 1 THEN\nENDIF', 'FOR i <- badf() TO 2\nNEXT', 'CALL bump(CC)', 'CALL via(2)', 'OUTPUT noret()']
GLOB = ['TYPE E = (ea, eb)', 'TYPE F = (fa, fb)', 'TYPE P = ^INTEGER', 'TYPE R', 'DECLARE n : INTEGER', 'ENDTYPE', 'DECLARE gi : INTEGER', 'DECLARE ga : ARRAY[1:3] OF INTEGER', 'DECLARE gr : R', 'DECLARE gp : P', 'DECLARE gs : STRING', 'DECLARE gd : DATE',
        'DECLARE ge : E', 'CONSTANT CC = 5', 'PROCEDURE okp(x : INTEGER)', 'OUTPUT "okp", x', 'ENDPROCEDURE', 'PROCEDURE okr(BYREF x : INTEGER)', 'x <- x + 1', 'ENDPROCEDURE', 'FUNCTION okf(x : INTEGER) RETURNS INTEGER', 'RETURN x', 'ENDFUNCTION',
        'FUNCTION badf() RETURNS INTEGER', 'DECLARE l : INTEGER', 'l <- 1', 'RETURN l DIV (l - 1)', 'ENDFUNCTION', 'PROCEDURE badp()', 'OUTPUT "badp"', 'gi <- "bad"', 'ENDPROCEDURE', 'PROCEDURE deep(n : INTEGER)', 'IF n = 0 THEN', 'OUTPUT badf()', 'ENDIF',
        'CALL deep(n - 1)', 'ENDPROCEDURE', 'FUNCTION deepf(n : INTEGER) RETURNS INTEGER', 'IF n = 0 THEN', 'CALL badp', 'ENDIF', 'RETURN', 'ENDFUNCTION', 'PROCEDURE bump(BYREF x : INTEGER)', 'x <- 1', 'ENDPROCEDURE',
        'PROCEDURE via(n : INTEGER)', 'FOR i <- 1 TO n', 'WHILE i = n DO', 'CALL bump(CC)', 'ENDWHILE', 'NEXT i', 'ENDPROCEDURE', 'FUNCTION noret() RETURNS INTEGER', 'OUTPUT "nr"', 'ENDFUNCTION']
GLOB[GLOB.index('RETURN')] = 'RETURN deepf(n - 1) + 1'
AROUND = ['%s', 'OUTPUT "b"\n%s\nOUTPUT "a"', 'IF TRUE THEN\n%s\nENDIF', 'IF FALSE THEN\nOUTPUT 1\nELSE\nOUTPUT 2\n%s\nENDIF', 'IF FALSE THEN\nELSE IF TRUE THEN\n%s\nENDIF', 'FOR q <- 1 TO 2\nIF q = 2 THEN\n%s\nENDIF\nNEXT q', 'WHILE TRUE DO\n%s\nBREAK\nENDWHILE',
          'REPEAT\nOUTPUT "r"\n%s\nUNTIL TRUE', 'w <- 2\nCASE OF w\n1: OUTPUT 1\n2: OUTPUT 2\n%s\nENDCASE', 'w <- 5\nCASE OF w\n1: OUTPUT 1\nOTHERWISE:\n%s\nENDCASE', '\n\n// comment\n%s', 'x9 <- "multi\nline"\n%s', "c9 <- 'q' // c\n\n%s"]
REACH = ['M', 'P', 'PP', 'F', 'FP', 'FF', 'R', 'A', 'PIF', 'L', 'U']


def place(fail, around, reach):
    body = around % fail
    g = '\n'.join(GLOB) + '\n'
    if reach == 'M':
        return g + body + '\n'
    d = 'PROCEDURE tp()\nDECLARE loc : INTEGER\n%s\nENDPROCEDURE\n' % body
    f = 'FUNCTION tf() RETURNS INTEGER\nOUTPUT "tf"\n%s\nRETURN 1\nENDFUNCTION\n' % body
    return g + {
        'P': d + 'OUTPUT "m"\nCALL tp\nOUTPUT "e"\n',
        'PP': d + 'PROCEDURE t2(x : INTEGER)\nOUTPUT "2"\n\nCALL tp\nENDPROCEDURE\nOUTPUT "m"\nFOR v <- 1 TO 2\nCALL t2(v)\nNEXT v\n',
        'F': f + 'OUTPUT "m"\nv <- 1 +\\\n'.replace('+\\\n', '+ tf()\n'),
        'FP': f + 'PROCEDURE t2()\nv <- 0\nWHILE v < tf() DO\nv <- v + 1\nENDWHILE\nENDPROCEDURE\nIF TRUE THEN\nCALL t2\nENDIF\n',
        'FF': f + 'FUNCTION t2(x : INTEGER) RETURNS INTEGER\nIF x > 1 THEN\nRETURN t2(x - 1)\nENDIF\nRETURN tf() + x\nENDFUNCTION\nOUTPUT "m", t2(3)\n',
        'R': 'PROCEDURE tr(n : INTEGER)\nIF n = 0 THEN\n%s\nELSE\nOUTPUT n\nCALL tr(n - 1)\nENDIF\nENDPROCEDURE\nCALL okp(1)\nCALL tr(3)\n' % body,
        'A': f + 'CALL okp(okf(1) + okf(tf()))\n',
        'PIF': d + 'IF FALSE THEN\nOUTPUT 1\nELSE\nCALL okp(3)\nCALL tp\nENDIF\n',
        'L': f + 'REPEAT\nOUTPUT "l"\nUNTIL tf() = 1\n',
        'U': d + 'PROCEDURE first()\nCALL second\nENDPROCEDURE\nPROCEDURE second()\nCALL third(okf(2))\nENDPROCEDURE\nPROCEDURE third(n : INTEGER)\nFOR z <- 1 TO n\nIF z = n THEN\nCALL tp\nENDIF\nNEXT z\nENDPROCEDURE\nCALL first\n',
    }[reach]


def traceback(ctx, fail, around, reach):
    src = place(fail, around, reach)
    x, r = ctx.diff(src, stdin='5\n', lines=True)
    for d in client.parse_diags(r.err):
        if d.line != 0:
            in_range(d, src)


def uncalled(ctx, src):
    """Faults in code that is never executed are still found first."""
    faulty(ctx, src)


def dead_code():
    bad = ['x <- ', 'OUTPUT', 'IF THEN\nENDIF', 'DECLARE', 'x <- (1', 'CALL', 'FOR i TO 3\nNEXT', '$', '"open', "'", 'RETURN', 'CASE x\nENDCASE', 'WHILE TRUE\nENDWHILE', 'REPEAT\nUNTIL', 'x ==  1', 'a[1 <- 2', 'r. <- 1', 'TYPE', 'OPENFILE "a"', 'READFILE',
           'x <- 1 2', 'ENDIF', 'NEXT', ') ', 'OUTPUT 1,', 'x <- y + * 2', 'FUNCTION f() \nENDFUNCTION', 'PROCEDURE p(x)\nENDPROCEDURE', 'CONSTANT x', 'SEEK "a"', 'OUTPUT("x")', 'OPENFILE "a" FOR WRITING', 'x <- \'ab\'', 'x <- "\\z"', 'DECLARE a : ARRAY[1:2 OF INTEGER',
           'DECLARE a : ARRAY[1] OF INTEGER', 'DECLARE a : ARRAY OF INTEGER', 'x <- INTEGER 5', 'GETRECORD "f"', 'PUTRECORD "f" x', 'WRITEFILE "f"', 'CLOSEFILE', 'INPUT', 'INPUT 5', 'READFILE "f", 5', 'BYREF x', 'TYPE T = (', 'TYPE T = ()', 'TYPE T = ^', 'TYPE T = 5',
           'ELSE', 'THEN', 'x', 'OTHERWISE : x', 'STEP 2', 'OF', '1 TO 2', ': x', '] ', '^', '^x', '& x', '.n', 'TO', 'RETURNS INTEGER']
    for b in bad:
        yield 'OUTPUT "x"\nIF FALSE THEN\n%s\nENDIF\nOUTPUT "y"\n' % b
        yield 'PROCEDURE never()\n%s\nENDPROCEDURE\nOUTPUT "y"\n' % b
        yield 'OUTPUT 1 / 0\n%s\n' % b
        yield 'OUTPUT "x"\n%s' % b
        yield 'WHILE FALSE DO\nx <- 1\n%s\nENDWHILE\n' % b
        yield 'x <- 1\nCASE OF x\n2: OUTPUT 2\n%s\nENDCASE\n' % b
        for c in bad[::5]:
            yield 'OUTPUT "x"\n%s\nOUTPUT "z"\n%s\n' % (b, c)


# ---- calls nested in and beside each other: the frames of finished calls are gone, those of running calls are listed with their lines
NDEF = ('DECLARE cnt, at, gi : INTEGER\nDECLARE ga : ARRAY[0:9] OF INTEGER\n'
        'FUNCTION tick(x : INTEGER) RETURNS INTEGER\ncnt <- cnt + 1\nIF cnt = at THEN\nOUTPUT 1 DIV 0\nENDIF\nRETURN x\nENDFUNCTION\n'
        'FUNCTION a(x : INTEGER) RETURNS INTEGER\n\nRETURN tick(x)\nENDFUNCTION\n'
        'FUNCTION b(x : INTEGER) RETURNS INTEGER\nDECLARE l : INTEGER\n\nl <- tick(x)\nRETURN l\nENDFUNCTION\n'
        'FUNCTION d(x : INTEGER) RETURNS INTEGER\ncnt <- cnt + 1\nIF cnt = at THEN\n\nOUTPUT undefinedname\nENDIF\nRETURN x\nENDFUNCTION\n'
        'FUNCTION h(x : INTEGER, y : INTEGER) RETURNS INTEGER\nFOR q <- 1 TO 2\nIF q = 2 THEN\nRETURN a(x) + d(y)\nENDIF\nNEXT q\nENDFUNCTION\n'
        'PROCEDURE p(x : INTEGER)\n\n\ncnt <- cnt + 1\nIF cnt = at THEN\nga[10] <- 1\nENDIF\nENDPROCEDURE\n'
        'PROCEDURE pr(BYREF x : INTEGER, y : INTEGER)\nCALL p(y)\nx <- tick(y)\nENDPROCEDURE\n')
NEST = [('a(1)', 1), ('a(b(1))', 2), ('a(b(d(1)))', 3), ('a(1) + b(2)', 2), ('d(1) + a(2) * b(3)', 3), ('a(b(1)) + d(2)', 3), ('a(1) + b(d(2))', 3), ('h(a(1), b(2))', 4), ('h(a(b(1)), d(2))', 5), ('h(1, b(d(2)))', 4),
        ('h(h(1, 2), b(3))', 5), ('a(ga[b(1)])', 2), ('a(LENGTH("ab") + d(1))', 2), ('-a(b(1))', 2), ('a((d(1)) * 2) - 1', 2)]
NFAIL = ['a(b(1)) DIV 0', 'a(b(1)) + "x"', 'ga[a(9) + 1]', 'a("x") + b(1)', 'a(b(1), 2)', 'a(1) + nosuch(2)', 'a(b(nosuch))', 'h(a(1), "x")', 'a(1) + ga[b(2), 1]', 'ASC(a(1))', 'b(a(1)).f']
NSTMT = ['OUTPUT %s', 'OUTPUT a(1), %s', 'gi <- %s', 'ga[a(1)] <- %s', 'ga[%s] <- a(1)', 'CALL p(%s)', 'CALL pr(gi, %s)', 'CALL pr(ga[1], a(%s))', 'IF a(1) = %s THEN\nOUTPUT "t"\nENDIF', 'WHILE %s > 99 DO\nENDWHILE', 'REPEAT\nOUTPUT "r"\nUNTIL %s > 0',
         'FOR i <- a(1) TO %s\nOUTPUT i\nNEXT i', 'FOR i <- 1 TO 2 STEP %s\nNEXT i', 'gi <- 2\nCASE OF gi\n%s: OUTPUT "c"\na(2): OUTPUT "d"\nENDCASE', 'OPENFILE "o" FOR WRITE\nWRITEFILE "o", %s\nCLOSEFILE "o"', 'DECLARE dyn : ARRAY[1:%s] OF INTEGER',
         'IF a(0) = 5 THEN\nOUTPUT 5\nELSE IF %s = 3 THEN\nOUTPUT 3\nENDIF', 'OUTPUT "x" & %s', 'OUTPUT a(1) = 1 AND b(1) = %s', 'OUTPUT MID("abcdefghijklmnopqrstuvwxyz", %s, 1)']


def nested():
    for st in NSTMT:
        for e, n in NEST + [(x, 0) for x in NFAIL]:
            extra = len([1 for f in ('a(', 'p(', 'pr(') if f in st])
            for at in range(1, n + 3 + extra) if n else (0,):
                for wrap in ('%s', 'PROCEDURE m()\nOUTPUT "m"\n%s\nENDPROCEDURE\nOUTPUT a(9)\nCALL m', 'FUNCTION g(k : INTEGER) RETURNS INTEGER\nIF k > 0 THEN\nRETURN a(g(k - 1))\nENDIF\n%s\nRETURN 1\nENDFUNCTION\nOUTPUT g(1)'):
                    yield NDEF + 'at <- %d\nOUTPUT "s"\n' % at + wrap % (st % e) + '\nOUTPUT "end"\n'


def trace(ctx, src):
    x, r = ctx.diff(src, stdin='5\n', lines=True)
    for d in client.parse_diags(r.err):
        if d.line != 0:
            in_range(d, src)


# ---- sessions: each entry is a source of its own, with lines counted from 1 whatever was entered before
EPRE = ['TYPE E = (ea, eb)', 'DECLARE gi : INTEGER', 'DECLARE ga : ARRAY[1:3] OF INTEGER', 'FUNCTION badf() RETURNS INTEGER\nDECLARE l : INTEGER\nl <- 1\nRETURN l DIV (l - 1)\nENDFUNCTION',
        'PROCEDURE badp(n : INTEGER)\n\n// comment\nIF n = 0 THEN\nga[7] <- 1\nENDIF\nCALL badp(n - 1)\nENDPROCEDURE'.replace('\n\n', '\n//\n'), 'FUNCTION outer(n : INTEGER) RETURNS INTEGER\nFOR q <- 1 TO n\nIF q = 2 THEN\nRETURN badf()\nENDIF\nNEXT q\nRETURN 0\nENDFUNCTION']
EANY = ['gi <- gi + 1', '// only a comment', 'gi', 'IF gi >= 0 THEN\nOUTPUT 1\nENDIF', 'FOR k <- 1 TO 2\nOUTPUT k\n\x01OUTPUT "k"\nNEXT k'.replace('\x01', ''), 'WHILE gi > 0 DO\ngi <- gi - 1\n// c\n// d\nENDWHILE',
        'x9 <- "a" // rest', 'OUTPUT 1 DIV 0', 'OUTPUT badf()', 'CALL badp(2)', 'OUTPUT 5 +', 'IF TRUE THEN\nOUTPUT 1\ngi <- "s"\nENDIF', 'IF TRUE THEN\nOUTPUT 1\nOUTPUT )\nENDIF', 'WHILE TRUE DO\n//\n//\nOUTPUT outer(3)\nENDWHILE',
        'OUTPUT $', 'TYPE T7\nDECLARE n : INTEGER\nENDTYPE', 'TYPE T8\nDECLARE n : INTEGER\nOUTPUT 1\nENDTYPE', 'RUNFILE good.p', 'RUNFILE bad.p', 'RUNFILE syn.p', 'RUNFILE nonl.p', '', '?', 'OUTPUT "open', 'INPUT gi\n12', 'INPUT gi\nword',
        'PROCEDURE np()\nOUTPUT "np"\n  gi <- nosuch\nENDPROCEDURE', 'CALL np', 'REPEAT\nOUTPUT 1\nOUTPUT 2\nUNTIL gi / 0', 'CASE OF gi\n0: OUTPUT 0\nga[9]: OUTPUT 1\nENDCASE', 'OUTPUT outer(2) + 1', 'CALL nosuch(1)', 'gi <- "text"', 'zz', '"lone']
EFILES = [('f', 0, 'good.p', 'OUTPUT "good"\nx <- 1\n\nOUTPUT x\n'), ('f', 0, 'bad.p', 'PROCEDURE q(n : INTEGER)\n\nOUTPUT n DIV 0\nENDPROCEDURE\nOUTPUT "bad"\n\nCALL q(5)\n'), ('f', 0, 'syn.p', 'OUTPUT 1\n\n\nOUTPUT )\n'),
          ('f', 0, 'nonl.p', '\n\nOUTPUT "n"\nOUTPUT nosuch')]


def entered(ctx, entries):
    x, r = ctx.repl(session(entries), lines=True, files=EFILES)
    ctx.observe((r.out, r.err))


def sessions(tier):
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for es in itertools.product(EANY, repeat=k):
            yield EPRE + list(es)
    for e in EANY:
        for n in range(3, 8):
            yield EPRE + [e] * n + ['OUTPUT 1 DIV 0', 'IF TRUE THEN\n//\nOUTPUT nosuch\nENDIF']
    # without anything before
    for a, b in itertools.product(EANY, repeat=2):
        yield [a, b]


def cases(tier):
    for es in sessions(tier):
        yield (entered, es)
    yield from scale.cases(tier, 'C11')
    yield from merge.cases(tier, 'C11', kw=dict(lines=True))
    for k in (2, 3, 4, 5, 6, 7, 8, 9, 17, 19):
        yield from rerun.cases(tier, 'C%02d' % k, n=2, modes='ADE', kw=dict(lines=True))
    for s in nested():
        yield (trace, s)
    for s in dead_code():
        yield (uncalled, s)
    for f in FAILING:
        for a in AROUND:
            for r in REACH:
                yield (traceback, f, a, r)
    toks = QUICK_TOKS if tier == 'quick' else TOKS
    for n in PROGRAMS:
        if n in ('s_str', 's_chr', 's_char', 's_escape', 's_eqeq', 's_ioparen'):
            continue
        for s, l in token_edits(n, toks):
            yield (faulty, s, l)
    for k, n in enumerate(PROGRAMS):
        if tier == 'quick' and k % 3:
            continue
        for s, l in char_edits(n):
            yield (faulty, s, l)
