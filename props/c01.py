"""C01: every input is either executed or diagnosed; the interpreter never crashes."""
import itertools
import re

import client
import psref
from engine import Mismatch
from corpus import PROGRAMS, STDIN, FILES
import c11
import merge
import rerun
import scale
from gen import chunks, session

INFO = dict(
    rule='every token sequence up to length 3 over the complete token vocabulary (bare and pedantic) and up to length 2 (thorough: 3) after a prelude that declares one of everything, in 60 contexts and as REPL entries; '
         'every triple of statements of a pool (file) and every pair (thorough: triple) of entries (REPL); every operator, conversion and built-in on every pair/triple of a pool of values; every statement form on every pair of '
         'holes; every byte deleted, replaced by and inserted before every byte of an alphabet (thorough: all 256), every token edit, every truncation and every prefix/suffix splice of a corpus with every construct; all '
         'byte strings up to length 2 and hostile lines up to length 3 (thorough: 4) as standard input, as data files and as damaged record files; every construct nested 1..1000 deep. The sanitized real interpreter runs each of them',
    technique='exhaustive enumeration of bounded input spaces, each input executed by the real interpreter under AddressSanitizer and UndefinedBehaviorSanitizer',
    note='Complete within the enumerated bounds (see evidence rule); the executions are batched in one process and every disorderly one is run again alone before it is reported; the first of every batch is also run alone and both '
         'results compared. Trusts the sanitizers and the harness. Signed overflow is assumed to wrap.',
    assumptions=['signed 64-bit overflow wraps silently', 'nesting <= 1000 with an 8 MB stack, statements and array cells within the verification budget'],
    flavor={'quick': 'asan', 'thorough': 'asan'})

LIM = dict(steps=1500, depth=60, cells=20000, max_string=1 << 16)
HEADS = (b'Syntax Error on line ', b'Runtime Error in file ', b'Error(pedantic) on line ', b'Error on line ')
DIR = [(f[2], f[3]) for f in FILES]


def alone(ctx, item, **kw):
    mode, prog, stdin, files = item
    args = (('-p',) if mode & 1 else ()) + (() if mode & 2 else ('../p',))
    r = ctx.run('' if mode & 2 else prog, args, stdin, [('f', 0, n, d) for n, d in files or ()], **dict(LIM, **kw))
    if not mode & 2 and r.code == 1 and r.kind == 'exit' and not r.err:
        raise Mismatch('exit status 1 without a diagnostic')
    ctx.orderly(r, bool(mode & 2))
    return r


def fine(mode, code, err):
    err = err.strip(b'\x07')
    if code == 0:
        return mode & 2 or not err
    return code == 1 and not mode & 2 and err.startswith(HEADS)


_NUM = re.compile(rb'\d+')


def go(ctx, items, size=400, **kw):
    """Runs every item (mode, program, stdin, files) of an iterable."""
    it = iter(items)
    lim = dict(LIM, **kw)
    while True:
        todo = list(itertools.islice(it, size))
        if not todo:
            return
        first = True
        while todo:
            recs, end = ctx.server.batch(todo, 60000 * ctx.long, **lim)
            ctx.runs += len(recs)
            ctx.steps += len(recs)
            if first and recs:
                r = alone(ctx, todo[0], **kw)
                if (r.code, r.err[:600]) != (recs[0][0], recs[0][1].decode('latin-1')):
                    if 'Address' not in r.err:
                        raise Mismatch('the same input ends differently alone and in a batch', alone=r.describe(), batch=recs[0])
                ctx.validated += 1
                first = False
            for item, (code, err) in zip(todo, recs):
                if not fine(item[0], code, err):
                    alone(ctx, item, **kw)
                ctx.observe((code, _NUM.sub(b'0', err[:160])))
            if len(recs) >= len(todo):
                break
            k = len(recs)
            alone(ctx, todo[k], timeout_ms=30000, **kw)
            ctx.skip('batch ended during a run that is orderly when alone')
            todo = todo[k + 1:]


def big(ctx, items):
    go(ctx, items, 25, steps=300000, depth=600, cells=200000, max_string=1 << 20)


# ---- token sequences
KEYS = ('DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE '
        'PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT READ OPENFILE READFILE WRITEFILE CLOSEFILE WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD').split()
PUNCT = ['(', ')', '+', '-', '*', '/', '&', '<-', ':', ',', '=', '<>', '<', '>', '<=', '>=', '[', ']', '^', '.', '\n']
LITS = ['0', '7', '1.5', '9223372036854775807', '"s"', "'c'", '1/2/2003', '""']
TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']
BARE = KEYS + PUNCT + LITS + ['INTEGER', 'STRING', 'x', 'LENGTH', 'TODAY', '//']
NAMES = ['i', 'r', 'b', 'c', 's', 'd', 'e', 'ea', 'E', 'p', 'P', 'v', 'R', 'n', 'a', 'm', 'K', 'pr', 'fn', 'g0', 'nosuch', '"in.txt"', '"o.dat"', 'LENGTH', 'MID', 'EOF', 'RAND', 'TODAY', 'i.n', 'v.n', 'v.a', 'p^', 'a[1]', 'v.a[2]', 'm[1, 1]']
RICH = KEYS + PUNCT + LITS + TYPES + NAMES
PIECES = [('E', 'TYPE E = (ea, eb, ec)', ''), ('P', 'TYPE P = ^INTEGER', ''), ('R', 'TYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', ''),
          ('i', 'DECLARE i : INTEGER', ''), ('r', 'DECLARE r : REAL', ''), ('b', 'DECLARE b : BOOLEAN', ''), ('c', 'DECLARE c : CHAR', ''), ('s', 'DECLARE s : STRING', ''), ('d', 'DECLARE d : DATE', ''), ('e', 'DECLARE e : E', 'E'),
          ('p', 'DECLARE p : P', 'P'), ('v', 'DECLARE v : R', 'R'), ('a', 'DECLARE a : ARRAY[1:2] OF INTEGER', ''), ('m', 'DECLARE m : ARRAY[0:1, 1:2] OF R', 'R'), ('K', 'CONSTANT K = 2', ''),
          ('pr', 'PROCEDURE pr(x : INTEGER)\nENDPROCEDURE', ''), ('pb', 'PROCEDURE pb(BYREF x : INTEGER)\nx <- 1\nENDPROCEDURE', ''), ('pn', 'PROCEDURE pn\nENDPROCEDURE', ''), ('fn', 'FUNCTION fn(x : INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION', ''),
          ('g0', 'FUNCTION g0 RETURNS R\nRETURN v\nENDFUNCTION', 'v R'), ('gp', 'FUNCTION gp RETURNS P\nDECLARE t : INTEGER\nRETURN ^t\nENDFUNCTION', 'P'), ('none', 'FUNCTION none RETURNS INTEGER\nENDFUNCTION', ''), ('p2', 'p <- ^i', 'p i P')]
DEF = '\n'.join(t for _, t, _ in PIECES) + '\n'
OPEN = 'OPENFILE "in.txt" FOR READ\nOPENFILE "o.dat" FOR RANDOM\nOPENFILE "w.txt" FOR WRITE\n'
_WORD = re.compile(r'[A-Za-z_]\w*')
_NEEDS = dict([(n, {n} | set(d.split())) for n, _, d in PIECES] + [('ea', {'E'}), ('eb', {'E'}), ('ec', {'E'}), ('p', {'p', 'P', 'i', 'p2'})])
_PRE = {}


def pre(body):
    """The declarations of the names that occur in the text."""
    w = frozenset(x for x in _WORD.findall(body) if x in _NEEDS)
    r = _PRE.get(w)
    if r is None:
        n = set().union(*(_NEEDS[x] for x in w)) if w else ()
        r = _PRE[w] = ''.join(t + '\n' for k, t, _ in PIECES if k in n)
    return r


BODIES = ['%s\n', 'OUTPUT %s\n', 'x <- %s\n', 'i <- %s\n', 'v <- %s\n', 'e <- %s\n', 'p <- %s\n', 'a <- %s\n', 'a[%s] <- 1\n', 'OUTPUT m[%s]\n', 'm[1, 2].a[%s] <- 4\n', 'IF %s THEN\nENDIF\n', 'IF TRUE THEN\n%s\nENDIF\n',
          'IF FALSE THEN\nELSE IF %s THEN\nELSE\nENDIF\n', 'WHILE %s DO\nBREAK\nENDWHILE\n', 'REPEAT\n%s\nUNTIL TRUE\n', 'REPEAT\nUNTIL %s\n', 'FOR q <- %s\nNEXT q\n', 'FOR q <- 1 TO 2 STEP %s\nNEXT\n', 'FOR %s <- 1 TO 2\nNEXT\n',
          'FOR q <- 1 TO 1\n%s\nNEXT q\n', 'FOR q <- 1 TO 2\nNEXT %s\n', 'CASE OF i\n%s: OUTPUT 1\nENDCASE\n', 'CASE OF s\n1 : %s\nOTHERWISE: %s\nENDCASE\n', 'CASE OF %s\n1: OUTPUT 1\nENDCASE\n', 'CASE OF e\n%s\nENDCASE\n',
          'PROCEDURE q(%s)\nENDPROCEDURE\n', 'PROCEDURE q(x : INTEGER)\n%s\nENDPROCEDURE\nCALL q(1)\n', 'PROCEDURE %s\nENDPROCEDURE\n', 'FUNCTION q(BYREF x : %s) RETURNS INTEGER\nRETURN 1\nENDFUNCTION\n',
          'FUNCTION q(x : INTEGER) RETURNS %s\nRETURN 1\nENDFUNCTION\nOUTPUT q(1)\n', 'FUNCTION q RETURNS INTEGER\n%s\nENDFUNCTION\nOUTPUT q()\n', 'FUNCTION q RETURNS R\nRETURN %s\nENDFUNCTION\nOUTPUT q().n\n', 'CALL %s\n',
          'CALL pr(%s)\n', 'CALL pb(%s)\n', 'OUTPUT fn(%s)\n', 'OUTPUT fn(1)%s\n', 'OUTPUT LENGTH(%s)\n', 'OUTPUT MID(s, %s)\n', 'DECLARE z : %s\nOUTPUT z\n', 'DECLARE %s\n', 'DECLARE z : ARRAY[%s] OF INTEGER\n', 'DECLARE z : ARRAY[1:%s\n',
          'CONSTANT %s\n', 'CONSTANT z = %s\n', 'TYPE %s\n', 'TYPE Q\n%s\nENDTYPE\nDECLARE z : Q\n', 'TYPE Q = %s\nDECLARE z : Q\n', 'TYPE Q = (%s)\n', 'INPUT %s\n', 'READFILE "in.txt", %s\n', 'READFILE %s\n', 'OPENFILE %s\n', 'OPENFILE "n" FOR %s\n',
          'CLOSEFILE %s\n', 'WRITEFILE "w.txt", %s\n', 'SEEK "o.dat", %s\n', 'PUTRECORD "o.dat", %s\nSEEK "o.dat", 1\nGETRECORD "o.dat", %s\n', 'GETRECORD %s\n', 'OUTPUT v.%s\n', 'v.%s <- 1\n', 'p^ <- %s\n', 'p <- ^%s\n', 'OUTPUT %s^\n',
          'OUTPUT INTEGER(%s)\n', 'OUTPUT STRING(%s)\n', 'OUTPUT i %s\n', 'OUTPUT (%s) + 1\n', 'OUTPUT NOT %s\n', 'OUTPUT -%s\n', 'OUTPUT s & %s\n', '%s <- 1\n', 'OUTPUT EOF(%s)\n', 'OUTPUT SETDATE(%s)\n', 'RETURN %s\n']


def defs(form):
    """Open files where they can matter: (program text, files)."""
    if form == '%s\n' or any(w in form for w in ('FILE', 'RECORD', 'SEEK', 'EOF')):
        return OPEN, DIR
    return '', None


def glue(ts):
    return ' '.join(ts)


def seqs(vocab, n):
    return itertools.product(vocab, repeat=n)


def bare3(ctx, t1, mode):
    go(ctx, ((mode, glue((t1,) + u), '7\n', None) for u in seqs(BARE, 2)))


def rich(ctx, body, firsts, n, mode):
    """Every sequence of n tokens that starts with one of firsts, in a context after the prelude."""
    k = body.count('%s')
    opened, files = defs(body)

    def it():
        for f in firsts:
            for u in seqs(RICH, n - 1):
                s = body % ((glue((f,) + u),) * k)
                yield mode, pre(s) + opened + s, '7\nx\n', files
    go(ctx, it())


def bare_repl(ctx, firsts, n):
    def it():
        for f in firsts:
            for u in seqs(BARE, n - 1):
                yield 2, '', glue((f,) + u) + '\nx\n\nx <- 1\n', None
    go(ctx, it())


def repl_def():
    """The prelude as REPL entries."""
    out = []
    for l in (DEF + OPEN).split('\n')[:-1]:
        out.append(l)
        if l in ('ENDTYPE', 'ENDPROCEDURE', 'ENDFUNCTION'):
            out.append('')
    return '\n'.join(out) + '\n'


def rich_repl(ctx, firsts, n, mode):
    intro = repl_def()

    def it():
        for f in firsts:
            for u in seqs(RICH, n - 1):
                yield mode, '', intro + glue((f,) + u) + '\nx\n\ni\n', DIR
    go(ctx, it())


# ---- sequences of statements
STMTS = ['x <- 5', 'x <- "s"', 'x <- 1.5', 'OUTPUT x', 'DECLARE x : INTEGER', 'DECLARE x : STRING', 'DECLARE x : ARRAY[1:2] OF INTEGER', 'x[1] <- 3', 'OUTPUT x[1]', 'DECLARE y : ARRAY[1:2] OF INTEGER', 'y <- x', 'x <- y',
         'CONSTANT x = 4', 'CONSTANT y = x', 'TYPE T = (x, y)', 'TYPE T = (z)', 'TYPE T = ^INTEGER', 'TYPE T = ^T', 'TYPE U = ^T', 'TYPE T\nDECLARE f : INTEGER\nENDTYPE', 'TYPE U\nDECLARE g : T\nDECLARE h : ARRAY[1:2] OF T\nENDTYPE',
         'TYPE T\nDECLARE f : T\nENDTYPE', 'DECLARE t : T', 'DECLARE u : U', 'DECLARE t : ARRAY[1:2] OF T', 't <- u', 'u.g <- t', 'u.h[1] <- t', 't.f <- 3', 'OUTPUT t', 'OUTPUT t.f', 'OUTPUT u.g.f', 't <- ^x', 't^ <- 9', 'OUTPUT t^', 'u <- ^t',
         't <- x', 'x <- t', 'x <- z', 'OUTPUT t = t, t < t', 't <- t + 1', 'PROCEDURE P\nENDPROCEDURE', 'PROCEDURE P(BYREF x : T)\nx <- x\nENDPROCEDURE', 'PROCEDURE P(x : INTEGER)\nx <- x + 1\nOUTPUT x\nENDPROCEDURE',
         'PROCEDURE P\nx <- 7\nDECLARE q : INTEGER\nt <- ^q\nENDPROCEDURE', 'CALL P', 'CALL P(x)', 'CALL P(t)', 'CALL P(x, t)', 'FUNCTION F RETURNS T\nRETURN t\nENDFUNCTION', 'FUNCTION F RETURNS INTEGER\nENDFUNCTION',
         'FUNCTION F(x : INTEGER) RETURNS INTEGER\nIF x > 0 THEN\nRETURN F(x - 1)\nENDIF\nRETURN 0\nENDFUNCTION', 'OUTPUT F()', 'OUTPUT F(3)', 'x <- F()', 't <- F()', 'OUTPUT F().f', 'OPENFILE "a" FOR WRITE', 'OPENFILE "a" FOR READ', 'OPENFILE "a" FOR RANDOM',
         'OPENFILE "a" FOR APPEND', 'WRITEFILE "a", x', 'READFILE "a", x', 'READFILE "a", t', 'CLOSEFILE "a"', 'SEEK "a", 2', 'PUTRECORD "a", x', 'PUTRECORD "a", t', 'PUTRECORD "a", u', 'GETRECORD "a", x', 'GETRECORD "a", t', 'GETRECORD "a", u', 'OUTPUT EOF("a")',
         'INPUT x', 'INPUT t', 'INPUT x[1]', 'FOR x <- 1 TO 2\nOUTPUT x\nNEXT x', 'FOR t <- 1 TO 2\nNEXT t', 'FOR x <- 1 TO 3\nx <- x + 1\nNEXT', 'WHILE x < 7 DO\nx <- x + 1\nENDWHILE', 'REPEAT\nx <- 5\nUNTIL x = 5', 'CASE OF x\n5 : OUTPUT 1\ny : OUTPUT 2\nOTHERWISE: OUTPUT 3\nENDCASE',
         'CASE OF t\nx : OUTPUT 1\nx TO y : OUTPUT 2\nENDCASE', 'IF x = t THEN\nDECLARE w : T\nENDIF', 'OUTPUT w', 'BREAK', 'CONTINUE', 'RETURN 1', 'RETURN', 'x', 'OUTPUT x & t', 'x <- x / 0', 'x <- NOT x', 'x <- -x', 'OUTPUT INTEGER(x), STRING(x)', 'OUTPUT LENGTH(x)',
         'OUTPUT P', 'OUTPUT T', 'x <- P', 'x.f <- 1', 'OUTPUT x^', 'T <- 1', 'P <- 1', 'DECLARE P : INTEGER', 'DECLARE T : T', 'DECLARE F : T', 'FUNCTION P RETURNS INTEGER\nRETURN 1\nENDFUNCTION', 'PROCEDURE F\nENDPROCEDURE', 'DECLARE LENGTH : INTEGER', 'LENGTH <- 3']
MULTI = ('IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION', 'TYPE')


def entry(s):
    return s + ('\n\n' if '\n' in s else '\n')


def stmts(ctx, first, n, mode):
    def it():
        for u in itertools.product(STMTS, repeat=n - 1):
            if mode & 2:
                yield mode, '', ''.join(entry(s) for s in (first,) + u) + '7\nx\n', DIR
            else:
                yield mode, '\n'.join((first,) + u) + '\n', '7\nx\n', DIR
    go(ctx, it())


# ---- values
VALS = ['0', '1', '-1', '3', '9223372036854775807', '-9223372036854775807', '(-9223372036854775807 - 1)', '1.5', '-0.5', '0.0', '1000000000000000000000000.0', '(1.0 / 0.0000000000000001)', '"s"', '""', '"12"', '"-"', '"1.5"', '"1/2/2003"', "'c'", "'5'",
        "'\\n'", 'TRUE', 'FALSE', '1/2/2003', '29/2/2000', '31/12/9999', 'i', 'r', 'b', 'c', 's', 'd', 'e', 'eb', 'p', 'p^', 'v', 'v.n', 'v.s', 'v.a', 'v.a[1]', 'a', 'a[1]', 'a[0]', 'm[0, 1]', 'm[1, 2].a', 'K', 'pr', 'fn', 'fn(1)', 'g0()', 'gp()', 'gp()^', 'none()', 'nosuch', 'E', 'R', 'P', 'nosuch()', 'pn()', 'TODAY()', '"\x80"',
        '9223372036854775807.0', '(0.0 / 0.0)', '1' + '0' * 300 + '.0']
OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '>', '<=', '>=', 'AND', 'OR']
FUN1 = ['LENGTH', 'TO_UPPER', 'TO_LOWER', 'NUM_TO_STR', 'STR_TO_NUM', 'IS_NUM', 'EOF', 'LCASE', 'UCASE', 'ASC', 'CHR', 'DAY', 'MONTH', 'YEAR', 'DAYINDEX', 'RAND', 'INT', 'EXP', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'SQRT', 'LOG', 'LN', 'INTEGER', 'REAL',
        'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'TODAY', 'TIME', 'HOURS', 'SECONDS', 'MINUTES', 'fn', 'none', 'NOT', '-', '^', '', 'pr']
FUN2 = ['LEFT', 'RIGHT', 'POW', 'ATAN2', 'DIV', 'MOD', 'MID', 'SETDATE', 'fn', 'LENGTH', 'INTEGER']
FUN3 = ['MID', 'SETDATE']


def binary(ctx, a):
    go(ctx, ((0, pre(a + ' ' + c) + 'OUTPUT %s %s %s\n' % (a, op, c), '', None) for op in OPS for c in VALS))


def unary():
    out = []
    for f in FUN1:
        for a in VALS:
            out.append('OUTPUT %s(%s)\n' % (f, a))
            out.append('OUTPUT %s(%s) + 1\n' % (f, a))
            out.append('OUTPUT %s(%s) & ""\n' % (f, a))
    for f in FUN2:
        for a in VALS:
            for c in VALS:
                out.append('OUTPUT %s(%s, %s)\n' % (f, a, c))
    return out


def ternary():
    small = [x for x in VALS if x[:1] != '1' or len(x) < 30]
    for f in FUN3:
        for a in (small if f == 'MID' else small[:12] + ['r', 'b', 'p']):
            for c in small:
                for d in small:
                    yield 'OUTPUT %s(%s, %s, %s)\n' % (f, a, c, d)


def bodies(ctx, bs, mode=0):
    go(ctx, ((mode, pre(x) + (OPEN if 'EOF' in x else '') + x, '7\nx\n', DIR if 'EOF' in x else None) for x in bs))


TWO = ['%s <- %s', 'a[%s] <- %s', 'm[%s, %s].n <- 1', 'OUTPUT m[%s, %s].a[2]', 'OUTPUT v.a[%s], a[%s]', 'FOR q <- %s TO %s\nBREAK\nNEXT q', 'FOR q <- 1 TO %s STEP %s\nBREAK\nNEXT q', 'IF %s THEN\nOUTPUT %s\nENDIF', 'WHILE %s DO\nOUTPUT %s\nBREAK\nENDWHILE', 'REPEAT\ni <- %s\nBREAK\nUNTIL %s',
       'CASE OF i\n%s TO %s : OUTPUT 1\nENDCASE', 'CASE OF s\n%s : OUTPUT 1\n%s : OUTPUT 2\nENDCASE', 'CASE OF e\n%s : OUTPUT 1\n%s : OUTPUT 2\nENDCASE', 'CASE OF %s\n%s : OUTPUT 2\nENDCASE', 'DECLARE z : ARRAY[%s:%s] OF INTEGER', 'DECLARE z : ARRAY[1:%s, 1:%s] OF R', 'CALL %s(%s)', 'CALL pr(%s, %s)', 'CALL pb(%s)\nCALL pr(%s)',
       'OUTPUT %s, %s', 'CONSTANT z = %s\nOUTPUT z & %s', 'CONSTANT z = %s\nz <- %s', 'INPUT %s\nINPUT %s', 'OPENFILE %s FOR READ\nREADFILE %s, s', 'READFILE "in.txt", %s\nREADFILE "in.txt", %s', 'WRITEFILE "w.txt", %s\nWRITEFILE "w.txt", %s', 'WRITEFILE %s, %s', 'SEEK "o.dat", %s\nPUTRECORD "o.dat", %s', 'SEEK %s, %s',
       'PUTRECORD "o.dat", %s\nSEEK "o.dat", 1\nGETRECORD "o.dat", %s', 'GETRECORD %s, %s', 'p <- ^%s\nOUTPUT p^ + %s', 'p <- ^%s\np^ <- %s', 'TYPE Q = ^%s\nDECLARE q : Q\nq <- ^%s', 'DECLARE q : %s\nq <- %s', 'FUNCTION q RETURNS %s\nRETURN %s\nENDFUNCTION\nOUTPUT q()', 'FUNCTION q(BYREF x : %s) RETURNS INTEGER\nRETURN 1\nENDFUNCTION\nOUTPUT q(%s)',
       'PROCEDURE q(x : %s)\nx <- x\nENDPROCEDURE\nCALL q(%s)', 'OUTPUT EOF(%s) = %s', 'OUTPUT fn(%s) + fn(%s)', 'CLOSEFILE %s\nCLOSEFILE %s', 'OUTPUT %s\nv <- %s', 'm[0, 1] <- %s\nm[1, 2].a <- %s', '%s\n%s', 'FOR %s <- 1 TO %s\nNEXT', 'IF %s = %s THEN\nENDIF', 'OUTPUT (%s)[%s]', 'OUTPUT %s.n\nOUTPUT %s^', 'OUTPUT %s.n.%s', '%s.n <- %s', '%s^ <- %s']
HOLES = VALS[:-1] + TYPES + ['"in.txt"', '"o.dat"', '"nodir/x"', '"."', 'z', 'i.n', 'i[1]', 'i^', 'v.nope', 'v.a[3]', 'v.a[1].n', 'm', 'm[1]', 'm[1, 2]', 'm[9, 9].n', 'p^^', 'p^.n', 'gp', 'LENGTH', 'ARRAY']


def two(ctx, form, first, modes):
    opened, files = defs(form)

    def it():
        for a, c in itertools.product(first, HOLES):
            x = form % (a, c) + '\n'
            for m in modes:
                yield m, pre(x) + opened + x, '7\nx\n', files
    go(ctx, it())


# ---- damaged programs
ABYTES = '\x00\x01\t\n\x0b\r !"#$%&\'()*+,-./0159:;<=>?@AEINOTZ[\\]^_`aeinx{|}~\x7f\x80\x92\xa0\xc3\xe2\xff'


def damaged(ctx, name, lo, hi, chars, mode):
    s = PROGRAMS[name]

    def at(i):
        yield mode, s[:i], STDIN, DIR
        if i < len(s):
            yield mode, s[:i] + s[i + 1:], STDIN, DIR
            yield mode, s[i:], STDIN, DIR
        for c in chars:
            yield mode, s[:i] + c + s[i:], STDIN, DIR
            if i < len(s):
                yield mode, s[:i] + c + s[i + 1:], STDIN, DIR
    go(ctx, ((m, p if not m & 2 else '', i if not m & 2 else p + '\n\n' + i, f) for k in range(lo, min(hi, len(s) + 1)) for m, p, i, f in at(k)))


def token_damaged(ctx, name, toks, mode):
    go(ctx, ((mode, '' if mode & 2 else p, (p + '\n\n' if mode & 2 else '') + STDIN, DIR) for p, _ in c11.token_edits(name, toks)))


def token_pairs(ctx, name, k, toks):
    """Two token edits, one of them at token k."""
    s = PROGRAMS[name]
    sp = c11.spans(name)
    a, e, t = sp[k]

    def it():
        for b, f, u in sp[k + 1:]:
            for x in toks:
                for y in toks:
                    yield 0, s[:a] + x + s[e:b] + y + s[f:], STDIN, DIR
    go(ctx, it())


def splice(ctx, x):
    a = PROGRAMS[x].split('\n')

    def it():
        for y in PROGRAMS.values():
            b = y.split('\n')
            for i in range(len(a)):
                for j in range(len(b)):
                    yield 0, '\n'.join(a[:i + 1] + b[j:]), STDIN, DIR
    go(ctx, it())


def token_splice(ctx, x, y):
    """Every prefix of x at a token boundary continued by every suffix of y."""
    s, t = PROGRAMS[x], PROGRAMS[y]
    pa = [p for p, _, _ in c11.spans(x)]
    pb = [p for p, _, _ in c11.spans(y)]
    go(ctx, ((0, s[:i] + ' ' + t[j:], STDIN, DIR) for i in pa for j in pb))


# ---- standard input and data files
HOSTILE = ['-', '+', '.', '0', '9', 'e', 'x', ' ', '"', "'", '\t', '/', '\x00', '\x80', '\r', 'T', ',', 'n']
INPUTS = {t: 'DECLARE v : %s\nINPUT v\nOUTPUT v\nDECLARE a : ARRAY[1:1] OF %s\nINPUT a[1]\nOUTPUT a[1]\n' % (t, t) for t in TYPES}
INPUTS['none'] = 'INPUT x\nOUTPUT x\nINPUT x\nOUTPUT x\n'
INPUTS['enum'] = 'TYPE E = (a, b)\nDECLARE x : E\nINPUT x\nOUTPUT x\n'
INPUTS['field'] = 'TYPE R\nDECLARE n : INTEGER\nDECLARE d : DATE\nENDTYPE\nDECLARE x : R\nINPUT x.n\nINPUT x.d\nOUTPUT x.n, x.d\n'
READS = {t: 'DECLARE v : %s\nOPENFILE "a" FOR READ\nWHILE NOT EOF("a") DO\nREADFILE "a", v\nOUTPUT v\nENDWHILE\nREADFILE "a", v\nCLOSEFILE "a"\nOPENFILE "a" FOR APPEND\nWRITEFILE "a", v\nCLOSEFILE "a"\nOPENFILE "a" FOR RANDOM\nGETRECORD "a", v\n' % t for t in TYPES}
READS['none'] = 'OPENFILE "a" FOR READ\nREADFILE "a", x\nOUTPUT x\nREADFILE "a", x\nOUTPUT EOF("a")\n'
LONG = ['9' * n for n in (18, 19, 20, 40, 308, 309, 310, 400, 1200)] + ['-' + '9' * n for n in (18, 19, 20, 400)] + ['0.' + '0' * 400 + '1', '9' * 400 + '.5', '1' + '0' * 308 + '.0', 'a' * 1023, 'a' * 1024, 'a' * 2000, '1/2/' + '9' * 30, '99999999999/1/2000', '1e400', '0x10', 'inf', 'nan', '1e5', '- 5', ' 5', '5 ', '\xd9\xa1',
                                                                 '31/02/2000', '1/1', '1/1/1/1', '//', '/1/1', '1//1', '-1/-1/-1', 'TRUE ', 'true', '\x00', 'a\x00b', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '+5', '1.', '.1', '.', '-.', '-', '+', '"', "''", '1.2.3', '5abc']


def lines_up_to(n):
    for k in range(n + 1):
        for t in itertools.product(HOSTILE, repeat=k):
            yield ''.join(t)


def stdin_lines(ctx, progs, ls):
    go(ctx, ((0, p, l + '\n' + l, None) for p in progs for l in ls))


def data_lines(ctx, progs, ls):
    go(ctx, ((0, p, '', [('a', l + e)]) for p in progs for l in ls for e in ('', '\n')))


def stdin_bytes(ctx, hi):
    progs = [INPUTS[k] for k in ('INTEGER', 'CHAR', 'STRING', 'none')]
    go(ctx, ((0, p, chr(hi) + c, None) for c in [''] + [chr(x) for x in range(256)] for p in progs))


def repl_bytes(ctx, hi):
    go(ctx, ((2, '', pre + chr(hi) + c + post, None) for c in [''] + [chr(x) for x in range(256)] for pre, post in (('', ''), ('', '\nx <- 1\nx\n'), ('IF TRUE THEN\n', '\nENDIF\n\n1\n'))))


def program_bytes(ctx, hi):
    go(ctx, ((0, chr(hi) + c + post, '', None) for c in [''] + [chr(x) for x in range(256)] for post in ('', '\n', ' x')))


REC = ('TYPE E = (ea, eb)\nTYPE S\nDECLARE k : CHAR\nENDTYPE\nTYPE R\nDECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE d : DATE\nDECLARE e : E\nDECLARE a : ARRAY[1:2] OF STRING\nDECLARE n : S\nENDTYPE\n')
RTYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E', 'S', 'R', 'ARRAY[1:2] OF INTEGER', 'ARRAY[0:1, 0:1] OF STRING', 'ARRAY[1:2] OF S', 'ARRAY[1:1] OF R', 'ARRAY[0:2] OF E']


def records(ty):
    """A file with two records as the interpreter writes it."""
    return REC + 'DECLARE v : %s\nOPENFILE "a" FOR RANDOM\nSEEK "a", 1\nPUTRECORD "a", v\nSEEK "a", 2\nPUTRECORD "a", v\nCLOSEFILE "a"\n' % ty


def getrec(ty, use):
    return REC + 'DECLARE v : %s\nOPENFILE "a" FOR RANDOM\nFOR k <- 1 TO 2\nSEEK "a", k\nGETRECORD "a", v\n%sPUTRECORD "a", v\nNEXT k\nCLOSEFILE "a"\n' % (ty, use)


LEAVES = {'S': ['.k'], 'R': ['.i', '.r', '.b', '.c', '.s', '.d', '.e', '.a[1]', '.a[2]', '.n.k'], 'ARRAY[1:2] OF INTEGER': ['[1]', '[2]'], 'ARRAY[0:1, 0:1] OF STRING': ['[0, 0]', '[0, 1]', '[1, 0]', '[1, 1]'],
          'ARRAY[1:2] OF S': ['[1].k', '[2].k'], 'ARRAY[1:1] OF R': ['[1].s', '[1].e', '[1].d', '[1].a[2]', '[1].n.k'], 'ARRAY[0:2] OF E': ['[0]', '[1]', '[2]']}
RTOKS = ['', '-1', '0', '1', '2', '3', '4', '7', '13', '32', '256', '10000', '99999999999999999999', '4294967296', '4294967297', '-9223372036854775808', '9223372036854775807', 'x', '""', '1.5', '\n', '\x00', '1000000', '18446744073709551615', ' ',
         'nan', 'inf', 'TRUE', 'INTEGER', 'STRING', 'ENUM', 'DATE', 'E', '+1', '1e400', '0x10', '-0']


def using(ty):
    """A value is used in every way that looks into it."""
    out = 'OUTPUT ' + ', ",", '.join('v' + l for l in LEAVES.get(ty, [''])) + '\n'
    for l in LEAVES.get(ty, ['']):
        if ty == 'E' or '.e' in l or ty == 'ARRAY[0:2] OF E':
            out += 'OUTPUT v%s = eb, v%s + 1\n' % (l, l)
        elif ty == 'DATE' or '.d' in l:
            out += 'OUTPUT DAY(v%s), MONTH(v%s), YEAR(v%s), DAYINDEX(v%s), v%s < 1/1/2000\n' % ((l,) * 5)
        elif ty == 'STRING' or '.s' in l:
            out += 'OUTPUT LENGTH(v%s), v%s & "x"\n' % (l, l)
    return out


def record_damage(ctx, ty, chars, mode=0):
    r = ctx.run(records(ty), listing=True, **LIM)
    ctx.orderly(r)
    data = r.files.get('a', '')
    prog = getrec(ty, using(ty))
    if mode == 2:
        # in a session the variable is still there after a failed GETRECORD
        sess = REC.replace('ENDTYPE\n', 'ENDTYPE\n\n') + 'DECLARE v : %s\nOPENFILE "a" FOR RANDOM\n' % ty
        for k in (1, 2):
            sess += 'SEEK "a", %d\nGETRECORD "a", v\n' % k + using(ty) + 'PUTRECORD "a", v\n'
        sess += 'CLOSEFILE "a"\n'

    def it():
        for i in range(len(data) + 1):
            yield data[:i]
            yield data[i:]
            yield data[:i] + data[i + 1:]
            for c in chars:
                yield data[:i] + c + data[i:]
                yield data[:i] + c + data[i + 1:]
        toks = re.split(r'(\s+)', data)
        for i in range(len(toks)):
            for x in RTOKS:
                yield ''.join(toks[:i] + [x] + toks[i + 1:])
            for j in range(i + 1, len(toks)):
                yield ''.join(toks[:i] + toks[j:])
    go(ctx, ((2, '', sess, [('a', d)]) if mode else (0, prog, '', [('a', d)]) for d in it()))


def record_cross(ctx, ty):
    """A file written for one type read as every other."""
    r = ctx.run(records(ty), listing=True, **LIM)
    ctx.orderly(r)
    data = r.files.get('a', '')
    go(ctx, ((0, getrec(t, ''), '', [('a', d)]) for t in RTYPES for d in (data, data + data, data[:-1], data.replace('\n', '\n\n'), data.replace('\n', ' '), '\n' + data)))


def record_lines(ctx, progs, ls):
    go(ctx, ((0, p, '', [('a', l)]) for p in progs for l in ls))


# ---- nesting
def deep_forms():
    return dict(
        parens=lambda n: 'OUTPUT ' + '(' * n + '1' + ')' * n + '\n', parens_open=lambda n: 'OUTPUT ' + '(' * n + '\n', neg=lambda n: 'OUTPUT ' + '-' * n + '1\n', nots=lambda n: 'OUTPUT ' + 'NOT ' * n + 'TRUE\n',
        ifs=lambda n: 'IF TRUE THEN\n' * n + 'OUTPUT 1\n' + 'ENDIF\n' * n, elifs=lambda n: 'IF FALSE THEN\n' + 'ELSE IF FALSE THEN\nOUTPUT 2\n' * n + 'ELSE\nOUTPUT 1\nENDIF\n', ifs_open=lambda n: 'IF TRUE THEN\n' * n,
        whiles=lambda n: 'WHILE TRUE DO\n' * n + 'OUTPUT 1\n' + 'BREAK\nENDWHILE\n' * n, repeats=lambda n: 'REPEAT\n' * n + 'OUTPUT 1\n' + 'UNTIL TRUE\n' * n, fors=lambda n: ''.join('FOR i%d <- 1 TO 1\n' % k for k in range(n)) + 'OUTPUT 1\n' + 'NEXT\n' * n,
        cases=lambda n: 'x <- 1\n' + 'CASE OF x\n1:\n' * n + 'OUTPUT 1\n' + 'ENDCASE\n' * n, others=lambda n: 'x <- 1\n' + 'CASE OF x\n2: OUTPUT 2\nOTHERWISE:\n' * n + 'OUTPUT 1\n' + 'ENDCASE\n' * n,
        index=lambda n: 'DECLARE a : ARRAY[1:2] OF INTEGER\na[1] <- 1\nOUTPUT ' + 'a[' * n + '1' + ']' * n + '\n', calls=lambda n: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION\nOUTPUT ' + 'f(' * n + '1' + ')' * n + '\n',
        builtins=lambda n: 'OUTPUT ' + 'TO_UPPER(' * n + '"a"' + ')' * n + '\n', casts=lambda n: 'OUTPUT ' + 'INTEGER(' * n + '1' + ')' * n + '\n', carets=lambda n: 'TYPE P = ^INTEGER\nDECLARE p : P\nx <- 1\np <- ^x\nOUTPUT p' + '^' * n + '\n', pre_carets=lambda n: 'x <- 1\nOUTPUT ' + '^' * n + 'x\n',
        sums=lambda n: 'OUTPUT 1' + ' + 1' * n + '\n', cats=lambda n: 'OUTPUT ""' + ' & "a"' * n + '\n', ands=lambda n: 'OUTPUT TRUE' + ' AND TRUE' * n + '\n', cmps=lambda n: 'OUTPUT 1' + ' = 1' * n + '\n', commas=lambda n: 'OUTPUT 1' + ', 1' * n + '\n',
        recursion=lambda n: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nIF x = 0 THEN\nRETURN 0\nENDIF\nRETURN f(x - 1) + 1\nENDFUNCTION\nOUTPUT f(%d)\n' % n, recursion_p=lambda n: 'PROCEDURE f(x : INTEGER)\nIF x > 0 THEN\nCALL f(x - 1)\nENDIF\nENDPROCEDURE\nCALL f(%d)\nOUTPUT 1\n' % n,
        recursion_ref=lambda n: 'PROCEDURE f(BYREF x : INTEGER, n : INTEGER)\nIF n > 0 THEN\nx <- x + 1\nCALL f(x, n - 1)\nENDIF\nENDPROCEDURE\ny <- 0\nCALL f(y, %d)\nOUTPUT y\n' % n, mutual=lambda n: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nIF x = 0 THEN\nRETURN 1\nENDIF\nRETURN g(x - 1)\nENDFUNCTION\n'
        'FUNCTION g(x : INTEGER) RETURNS INTEGER\nIF x = 0 THEN\nRETURN 1 / 0\nENDIF\nRETURN f(x - 1)\nENDFUNCTION\nOUTPUT f(%d)\n' % n, recursion_err=lambda n: 'PROCEDURE f(x : INTEGER)\nIF x > 0 THEN\nCALL f(x - 1)\nELSE\nOUTPUT 1 / 0\nENDIF\nENDPROCEDURE\nCALL f(%d)\nOUTPUT 1\n' % n,
        records=lambda n: 'TYPE R0\nDECLARE x : INTEGER\nENDTYPE\n' + ''.join('TYPE R%d\nDECLARE x : R%d\nENDTYPE\n' % (k + 1, k) for k in range(n)) + 'DECLARE r : R%d\nr%s.x <- 4\nDECLARE q : R%d\nq <- r\nOUTPUT q%s.x\n' % (n, '.x' * n, n, '.x' * n),
        pointers=lambda n: 'TYPE P0 = ^INTEGER\n' + ''.join('TYPE P%d = ^P%d\n' % (k + 1, k) for k in range(n)) + 'DECLARE i : INTEGER\ni <- 4\nDECLARE p0 : P0\np0 <- ^i\n' + ''.join('DECLARE p%d : P%d\np%d <- ^p%d\n' % (k + 1, k + 1, k + 1, k) for k in range(n)) + 'OUTPUT p%d%s\n' % (n, '^' * (n + 1)),
        dims=lambda n: 'DECLARE a : ARRAY[' + ', '.join(['1:1'] * n) + '] OF INTEGER\na[' + ', '.join(['1'] * n) + '] <- 4\nOUTPUT a[' + ', '.join(['1'] * n) + ']\n', params=lambda n: 'PROCEDURE p(' + ', '.join('x%d : INTEGER' % k for k in range(n)) + ')\nENDPROCEDURE\nCALL p(' + ', '.join(['1'] * n) + ')\nOUTPUT 1\n',
        enum=lambda n: 'TYPE E = (' + ', '.join('e%d' % k for k in range(n)) + ')\nDECLARE e : E\ne <- e0 + %d\nOUTPUT e\n' % (n - 1), ident=lambda n: 'x' * n + ' <- 1\nOUTPUT ' + 'x' * n + '\n', digits=lambda n: 'OUTPUT ' + '1' * n + '\n', fdigits=lambda n: 'OUTPUT 0.' + '1' * n + '\n', ndigits=lambda n: 'OUTPUT ' + '1' * n + '.0\n',
        string=lambda n: 'OUTPUT "' + 'x' * n + '"\n', newlines=lambda n: '\n' * n + 'OUTPUT 1\n', spaces=lambda n: 'OUTPUT' + ' ' * n + '1\n', tabs=lambda n: '\t' * n + 'OUTPUT 1\n', blanks_err=lambda n: '\n' * n + 'OUTPUT 1 +\n', procs_nest=lambda n: 'PROCEDURE p\n' * n + 'ENDPROCEDURE\n' * n,
        types_nest=lambda n: 'TYPE T\n' * n + 'ENDTYPE\n' * n, ptr_self=lambda n: 'TYPE T\nDECLARE x : INTEGER\nDECLARE p : P\nENDTYPE\nTYPE P = ^T\nDECLARE t : T\n' + 'OUTPUT t' + '.p^' * n + '.x\n', fields=lambda n: 'TYPE T\n' + ''.join('DECLARE f%d : INTEGER\n' % k for k in range(n)) + 'ENDTYPE\nDECLARE t, u : T\nt.f%d <- 4\nu <- t\nOUTPUT u.f%d\n' % (n - 1, n - 1))


NOREPL = ('ifs_open', 'procs_nest', 'types_nest', 'newlines', 'blanks_err')


def deep(ctx, name, n, small):
    """One construct nested n deep, with the usual stack and with a sanitizer."""
    src = deep_forms()[name](n)
    lim = dict(steps=20000, depth=2500, cells=100000, max_string=1 << 20, timeout_ms=60000)
    if small:
        import build
        srv = getattr(ctx, 'small', None)
        if srv is None:
            srv = ctx.small = client.Server(build.build('plain'), stack=8 << 20)
        keep, ctx.server = ctx.server, srv
    try:
        for args in ((), ('-p',)):
            r = ctx.run(src, args + ('../p',), '', **lim)
            ctx.orderly(r)
            ctx.steps += 1
            ctx.observe((name, r.code, _NUM.sub(b'0', r.err[:120].encode('latin-1'))))
    finally:
        if small:
            ctx.server = keep


def cases(tier):
    q = tier == 'quick'
    # whole-corpus sanity first: every program in every mode
    yield (lambda ctx: go(ctx, ((m, '' if m & 2 else p, (p + '\n\n' if m & 2 else '') + STDIN, DIR) for p in PROGRAMS.values() for m in range(4))),)
    def sizes():
        for k in range(2, 21):
            if k == 18:
                continue
            for f, *c in scale.cases(tier, 'C%02d' % k):
                if k == 12:
                    yield (2, '', session(c[0]), ())
                elif k in (13, 14, 15, 16):
                    for p in c[0]:
                        yield (0, p, '', ())
                else:
                    for m in range(2):
                        yield (m, c[0], c[1].get('stdin', ''), ())
    for c in chunks(sizes(), 25):
        yield (big, c)
    def again():
        for k in (2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 17, 18, 19):
            for _, m, src, kw in rerun.cases(tier, 'C%02d' % k, n=2):
                yield (2, '', session(src), ()) if m in 'CF' else (0, src, kw.get('stdin', ''), ())
    for c in chunks(again(), 200):
        yield (go, c)
    def same():
        for _, src, ms, _ in merge.cases(tier, 'C01'):
            toks, bl = merge.words(src), merge.blocks(merge.words(src))
            for m in ms:
                yield (0, merge.apply(toks, bl, m), '6\n7.5\n', ())
    for c in chunks(same(), 200):
        yield (go, c)
    for n in (1, 2, 10, 50, 100, 200, 300, 500, 700, 900, 1000):
        if q and n in (1, 2, 50, 200, 300, 700, 900):
            continue
        for name in deep_forms():
            yield deep, name, n, True
            if n in (2, 100, 1000):
                yield deep, name, n, False
    # token sequences
    for t in BARE:
        for mode in ((0, 1) if not q else (0,)):
            yield bare3, t, mode
    for k in range(0, len(BARE), 12):
        yield bare_repl, BARE[k:k + 12], 2
        if not q:
            for t in BARE[k:k + 12]:
                yield bare_repl, (t,), 3
    for body in BODIES:
        yield (lambda ctx, b: go(ctx, ((m, DEF + OPEN + b % ((t,) * b.count('%s')), '7\nx\n', DIR) for t in RICH for m in (0, 1))), body)
    for body in BODIES:
        for k in range(0, len(RICH), 30):
            yield rich, body, RICH[k:k + 30], 2, 0
            if not q:
                yield rich, body, RICH[k:k + 30], 2, 1
    for k in range(0, len(RICH), 15):
        for mode in (2, 3):
            yield rich_repl, RICH[k:k + 15], 1, mode
            if not q or mode == 2:
                yield rich_repl, RICH[k:k + 15], 2, mode
    # values
    for a in VALS:
        yield binary, a
    us = unary()
    for k in range(0, len(us), 2000):
        yield bodies, us[k:k + 2000]
    if not q:
        ts = list(ternary())
        for k in range(0, len(ts), 2000):
            yield bodies, ts[k:k + 2000]
    for form in TWO:
        for k in range(0, len(HOLES), 5):
            yield two, form, HOLES[k:k + 5], ((0,) if q else (0, 1))
    # statements
    for s in STMTS:
        for mode in (0, 1, 2):
            yield stmts, s, 2, mode
    # bytes
    for hi in range(256):
        yield stdin_bytes, hi
        yield repl_bytes, hi
        yield program_bytes, hi
    n = 2 if q else 3
    ls = list(lines_up_to(n)) + LONG
    for k in range(0, len(ls), 250):
        for p in INPUTS.values():
            yield stdin_lines, [p], ls[k:k + 250]
        for p in READS.values():
            yield data_lines, [p], ls[k:k + 250]
        for ty in RTYPES:
            yield record_lines, [getrec(ty, '')], ls[k:k + 250]
    for ty in RTYPES:
        yield record_cross, ty
        for mode in (0, 2):
            yield record_damage, ty, ('-', '0', '1', '2', '9', 'x', ' ', '\n', '"', '\x00', '\x80') if q else ABYTES, mode
    # damaged programs
    for name in PROGRAMS:
        for i in range(0, len(PROGRAMS[name]) + 1, 6):
            yield damaged, name, i, i + 6, (ABYTES[::2] if q else [chr(x) for x in range(256)]), 0
            if not q:
                yield damaged, name, i, i + 6, ABYTES[::2], 2
        for mode in ((0,) if q else (0, 1, 2)):
            yield token_damaged, name, (c11.QUICK_TOKS[::2] if q else c11.TOKS), mode
    for x in PROGRAMS:
        yield splice, x
    if not q:
        for s in STMTS:
            yield stmts, s, 3, 0
        for t in RICH:
            yield rich, '%s\n', (t,), 3, 0
        for name in PROGRAMS:
            if len(PROGRAMS[name]) < 120:
                for k in range(len(c11.spans(name))):
                    yield token_pairs, name, k, c11.QUICK_TOKS[::3]
        for x in PROGRAMS:
            for y in PROGRAMS:
                if len(PROGRAMS[x]) < 160 and len(PROGRAMS[y]) < 160:
                    yield token_splice, x, y
        for s in STMTS:
            yield stmts, s, 3, 2
