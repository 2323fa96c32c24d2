"""C12: the REPL runs programs like file mode and survives failing entries unharmed."""
import importlib
import itertools

import client
import psref
from engine import Ctx, Mismatch, strip_warnings
from corpus import PROGRAMS, STDIN, FILES
from gen import chunks, session
from c18 import entries as by_entry
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='(a) every program of the corpus and of the listed other checks split into entries, in one session and in file mode; (b) every history of valid entries up to the length bound x every failing entry of every '
         'error kind at every position, compared with the same session without it, and all failing entries together at every position; (c) every history up to length 5 over a small alphabet of valid, failing, multi-line '
         'and RUNFILE entries; (d) the echo of values of every type; all sessions also compared with the reference model',
    assumptions=['what a session does after the end of its input inside a multi-line construct, and RUNFILE of a file that cannot be read beyond continuing the session, are not asserted'],
    technique='exhaustive enumeration of REPL histories, compared with file mode, with the session without the failing entry, and with the reference model',
    flavor={'quick': 'plain', 'thorough': 'plain'})

MULTI = ('IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION', 'TYPE')


def split(src):
    """The program as REPL entries (None if it cannot be entered one statement at a time)."""
    if not src.endswith('\n'):
        src += '\n'
    if any(not (' ' <= c <= '~' or c in '\n\t') for c in src):
        return None
    try:
        b = psref.Model().parse(src)
    except (psref.SyntaxErr, psref.PedanticErr, psref.Unspecified):
        return None
    lines = src.split('\n')
    starts = [n.line for n in b]
    # a statement starts at the first line that has no other statement before it
    if any(x >= y for x, y in zip(starts, starts[1:])) or any(not isinstance(x, int) for x in starts):
        return None
    out = []
    for a, e in zip(starts, starts[1:] + [len(lines)]):
        part = [l for l in lines[a - 1:e - 1] if l.strip()]
        while len(part) > 1 and part[-1].strip().startswith('//'):
            part.pop()
        first = part[0].strip()
        w = first.split()[0].split('(')[0] if first else ''
        multi = w in MULTI and not (w == 'TYPE' and '=' in first.split('//')[0])
        if not multi and len(part) > 1:
            return None
        if first in ('?', 'EXIT') or first.startswith('RUNFILE') or '\t' in '\n'.join(part):
            return None
        out.append('\n'.join(part) + ('\n' if multi else ''))
    return out


def lines_of(ents):
    return '\n'.join(ents) + '\n'


def printed(out, n):
    """Everything printed by a session, without prompts, per entry."""
    r = []
    for l in out.split('\n')[2:]:
        if l[:2] == '> ':
            r.append([])
        elif l[:2] != '. ' and r:
            r[-1].append(l)
    return r


def text(parts):
    """Printed text of the entries, up to blank lines."""
    return [l for p in parts for l in p if l]


def within(a, b):
    """a is a subsequence of b (bare expressions in b echo their value)."""
    it = iter(b)
    return all(x in it for x in a)


def same_as_file(ctx, src, ents, files, r0):
    """The session prints what the program prints from a file."""
    s = lines_of(ents)
    x, r = ctx.repl(s, files=files, **({} if files else {'check_files': 'OPENFILE' in src}))
    if any(l[:2] in ('> ', '. ') for l in r0.out.split('\n')):
        return
    got = printed(r.out, len(ents))
    d0, d = client.parse_diags(r0.err), client.parse_diags(r.err)
    a = [l for l in strip_warnings(r0.out).split('\n') if l]
    b = [l for l in text(got) if not l.startswith('Warning on line')]
    if r0.code == 0:
        if d:
            raise Mismatch('an entry fails, the program in a file does not: %r' % d)
        if a != b:
            raise Mismatch('the session printed %r, the program in a file %r' % (b[:60], a[:60]))
    else:
        if not d or d[0].kind != d0[0].kind:
            raise Mismatch('the program fails with %r, the session with %r' % (d0, d))
        if b[:len(a)] != a:
            raise Mismatch('the session printed %r, the program in a file %r' % (b[:60], a[:60]))


def corpus(ctx, name):
    src = PROGRAMS[name]
    ents = split(src)
    if ents is None:
        return
    if 'INPUT' in src or 'READ ' in src:
        # the input lines follow the entry that reads them
        ins = iter(STDIN.split('\n'))
        ents = [e + ('\n' + next(ins) if e.startswith(('INPUT', 'READ ')) else '') for e in ents]
        ctx.repl(lines_of(ents), files=FILES)
        return
    x, r = ctx.diff(src, files=FILES)
    same_as_file(ctx, src, ents, FILES, r)


class Split(Ctx):
    """Enters every program of another check also in a session."""

    def __init__(self, ctx):
        self.__dict__ = ctx.__dict__

    def diff(self, src, stdin='', **kw):
        x, r = Ctx.diff(self, src, stdin, **kw)
        if x is None or stdin or kw.get('repl') or not kw.get('wipe', True) or kw.get('pedantic') or kw.get('rands') or len(src) > 12000:
            return x, r
        ents = split(src)
        if ents is None:
            return x, r
        a = {k: kw[k] for k in kw if k in ('files', 'fs', 'model_kw', 'steps', 'depth', 'cells')}
        s = lines_of(ents)
        y, r2 = Ctx.diff(self, '', s, repl=True, check_files=kw.get('check_files') or 'OPENFILE' in src, **a)
        if y is None:
            return x, r
        got = printed(r2.out, len(ents))
        if any(l[:2] in ('> ', '. ') for l in r.out.split('\n')):
            return x, r
        p = [l for l in strip_warnings(r.out).split('\n') if l]
        q = [l for l in text(got) if not l.startswith('Warning on line')]
        if not within(p, q):
            raise Mismatch('the session printed %r, the program in a file %r' % (q[:60], p[:60]))
        return x, r


def other(ctx, fn, *args):
    fn(Split(ctx), *args)


# ---------------------------------------------------------------- failing entries

PRE = ['DECLARE i : INTEGER', 'DECLARE r : REAL', 'DECLARE b : BOOLEAN', 'DECLARE c : CHAR', 'DECLARE s : STRING', 'DECLARE d : DATE', 'DECLARE a : ARRAY[1:3] OF INTEGER', 'DECLARE m : ARRAY[0:1, 0:1] OF STRING',
       'TYPE E = (ea, eb, ec)', 'TYPE F = (fa, fb)', 'TYPE P = ^INTEGER', 'TYPE R\nDECLARE n : INTEGER\nDECLARE t : STRING\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\n', 'TYPE Q\nDECLARE n : INTEGER\nENDTYPE\n',
       'DECLARE e : E', 'DECLARE f : F', 'DECLARE p : P', 'DECLARE x, y : R', 'DECLARE q : Q', 'CONSTANT K = 7', 'CONSTANT S = "const"',
       'PROCEDURE inc(BYREF z : INTEGER)\nz <- z + 1\nENDPROCEDURE\n', 'FUNCTION dbl(z : INTEGER) RETURNS INTEGER\nRETURN z * 2\nENDFUNCTION\n',
       'FUNCTION ptr() RETURNS P\nDECLARE l : INTEGER\nDECLARE lp : P\nlp <- ^l\nRETURN lp\nENDFUNCTION\n',
       'PROCEDURE bad(BYREF z : INTEGER)\nDECLARE loc : INTEGER\nz <- z + 10\nloc <- z DIV 0\nz <- 0\nENDPROCEDURE\n', 'FUNCTION badf(z : INTEGER) RETURNS INTEGER\ni <- z\nIF z > 0 THEN\nRETURN badf(z - 1)\nENDIF\nOUTPUT nosuch\nENDFUNCTION\n',
       'i <- 4', 's <- "str"', 'a[2] <- 9', 'x.n <- 5', 'p <- ^i',
       'OPENFILE "in.txt" FOR READ', 'OPENFILE "w.txt" FOR WRITE', 'OPENFILE "ap.txt" FOR APPEND', 'OPENFILE "r.dat" FOR RANDOM', 'PUTRECORD "r.dat", i', 'SEEK "r.dat", 2', 'PUTRECORD "r.dat", s', 'SEEK "r.dat", 1']
FFILES = FILES + [('f', 0, 'ap.txt', 'old\n'), ('f', 0, 'prog.pse', 'OUTPUT "from file"\ni <- 100\nOUTPUT i\nDECLARE only : INTEGER\nPROCEDURE inc(z : INTEGER)\nOUTPUT "other inc"\nENDPROCEDURE\nCALL inc(1)\nOPENFILE "w2.txt" FOR WRITE\nWRITEFILE "w2.txt", "left open"\n'),
                  ('f', 0, 'bad.pse', 'OUTPUT "starts"\nx <- 1 / 0\nOUTPUT "never"\n'), ('f', 0, 'syn.pse', 'OUTPUT "never"\nIF\n')]

# no effect at all
FAIL = ['i <- "text"', 'i <- ea', 'i <- a', 'i <- x', 'i <- p', 'i <- 1 / 0 + i', 'i <- 5 DIV 0', 'i <- nosuch', 'i <- i + "x"', 'i <- 1/13/2000', 'r <- "q"', 'b <- 5 & nosuch', 'd <- 31/2/2001', 'd <- 5', 's <- x', 's <- nosuch & "z"', 'a[4] <- 1', 'a[0] <- 1',
        'a[1, 1] <- 1', 'a["x"] <- 1', 'a[1] <- "text"', 'a[nosuch] <- 1', 'a <- 5', 'a <- m', 'm[2, 0] <- "q"', 'm[0] <- "q"', 'e <- fa', 'e <- 1', 'f <- ec', 'e <- nosuch', 'x <- q', 'x <- 5', 'x.n <- "text"', 'x.nosuch <- 1', 'x.v[3] <- 1', 'x.v <- 1', 'x.n.k <- 1',
        'p <- ^s', 'p <- ^nosuch', 'p <- 5', 'p <- ^K', 'i^ <- 5', 'K <- 8', 'S <- "other"', 'ea <- 5', 'E <- 5', 'R <- x', 'newvar <- nosuch', 'newvar <- 1 / 0', 'newvar <- 1 + "x"', 'newarr[1] <- 5', 'newrec.f <- 5', 'newptr^ <- 5', 'newvar <- a', 'newvar <- R',
        'DECLARE i : INTEGER', 'DECLARE i : STRING', 'DECLARE a : ARRAY[1:2] OF REAL', 'DECLARE K : INTEGER', 'DECLARE ea : INTEGER', 'DECLARE E : INTEGER', 'DECLARE newvar : NoType', 'DECLARE newvar : ARRAY[2:1] OF INTEGER', 'DECLARE newvar : ARRAY[1:nosuch] OF INTEGER',
        'DECLARE newvar : ARRAY["a":3] OF INTEGER', 'DECLARE newvar : ARRAY[1:2] OF NoType', 'DECLARE newvar : i',
        'CONSTANT K = 8', 'CONSTANT i = 8', 'CONSTANT ea = 1', 'CONSTANT E = 1', 'CONSTANT newvar = nosuch', 'CONSTANT a <- 1',
        'OPENFILE "in.txt" FOR READ', 'OPENFILE "w.txt" FOR WRITE', 'OPENFILE "w.txt" FOR READ', 'OPENFILE "ap.txt" FOR WRITE', 'OPENFILE "r.dat" FOR WRITE', 'OPENFILE "none.txt" FOR READ', 'OPENFILE 5 FOR READ', 'OPENFILE nosuch FOR READ', 'OPENFILE "" FOR READ', 'OPENFILE "nodir/x" FOR WRITE',
        'READFILE "w.txt", s', 'READFILE "none.txt", s', 'READFILE "in.txt", K', 'READFILE "in.txt", S', 'READFILE "in.txt", i', 'READFILE "in.txt", a', 'READFILE "in.txt", x', 'READFILE "in.txt", e', 'READFILE "r.dat", s', 'READFILE 5, s', 'READFILE nosuch, s',
        'WRITEFILE "in.txt", "x"', 'WRITEFILE "none.txt", "x"', 'WRITEFILE "w.txt", x', 'WRITEFILE "w.txt", a', 'WRITEFILE "w.txt", e', 'WRITEFILE "w.txt", p', 'WRITEFILE "w.txt", nosuch', 'WRITEFILE "w.txt", 1 / 0', 'WRITEFILE "r.dat", "x"', 'WRITEFILE "ap.txt", nosuch', 'WRITEFILE 5, "x"', 'WRITEFILE "w.txt", "a" & nosuch',
        'CLOSEFILE "none.txt"', 'CLOSEFILE 5', 'CLOSEFILE nosuch', 'SEEK "in.txt", 1', 'SEEK "w.txt", 1', 'SEEK "r.dat", 0', 'SEEK "r.dat", -1', 'SEEK "r.dat", 4', 'SEEK "r.dat", 1000', 'SEEK "r.dat", "1"', 'SEEK "r.dat", 1.0', 'SEEK "r.dat", nosuch', 'SEEK "none.dat", 1', 'SEEK 5, 1',
        'GETRECORD "r.dat", s', 'GETRECORD "r.dat", b', 'GETRECORD "r.dat", x', 'GETRECORD "r.dat", a', 'GETRECORD "r.dat", m', 'GETRECORD "r.dat", e', 'GETRECORD "r.dat", d', 'GETRECORD "r.dat", r', 'GETRECORD "r.dat", p', 'GETRECORD "r.dat", K', 'GETRECORD "r.dat", nosuch', 'GETRECORD "in.txt", i', 'GETRECORD "none.dat", i', 'GETRECORD 5, i',
        'PUTRECORD "r.dat", nosuch', 'PUTRECORD "r.dat", p', 'PUTRECORD "in.txt", i', 'PUTRECORD "w.txt", i', 'PUTRECORD "none.dat", i', 'PUTRECORD 5, i']
# syntax errors: nothing runs
SYN = ['i <-', 'i <- (', 'i <- 5 5', 'i <- )', '<- 5', 'i i', 'OUTPUT', 'OUTPUT (5', 'OUTPUT "x', "OUTPUT 'x", "OUTPUT ''", 'DECLARE', 'DECLARE newvar', 'DECLARE newvar :', 'DECLARE newvar : ARRAY[1] OF INTEGER', 'DECLARE : INTEGER', 'CONSTANT', 'CONSTANT newvar', 'CONSTANT newvar = i + 1', 'CALL', 'CALL 5', 'INPUT', 'INPUT 5',
       'OPENFILE', 'OPENFILE "q.txt"', 'OPENFILE "q.txt" FOR', 'OPENFILE "q.txt" FOR APPENDING', 'READFILE "in.txt"', 'READFILE "in.txt", ', 'WRITEFILE "w.txt"', 'SEEK "r.dat"', 'ENDIF', 'ELSE', 'NEXT', 'ENDWHILE', 'UNTIL TRUE', 'ENDPROCEDURE', 'OTHERWISE', 'THEN', '@', 'i $ 5', '5 +', '* 5', 'i <- 99999999999999999999', '"bad \\q escape"',
       'OUTPUT 1, , 2', 'i[ <- 5', 'a[1 <- 5', 'x. <- 5', 'TYPE E2 = ', 'TYPE E2 = (', 'TYPE E2 = (g0, ', 'TYPE P2 = ^', 'BYREF i', 'RETURN', 'RETURN 5', 'i <- 5 OUTPUT i', 'i <- i +', 'OUTPUT NOT', 'OUTPUT i AND',
       'IF i > 1 THEN\ni <- 50\n', 'IF i > 1\ni <- 50\nENDIF\nx\n', 'WHILE i < 100 DO\ni <- i + 1\n', 'FOR i <- 1 TO\nNEXT i\n', 'FOR j <- 1 TO 3\nOUTPUT j\n', 'REPEAT\ni <- 50\n', 'CASE OF i\n1: OUTPUT\nENDCASE\n', 'PROCEDURE newp(\nENDPROCEDURE\n', 'PROCEDURE newp()\nOUTPUT 1\n', 'FUNCTION newf()\nRETURN 1\nENDFUNCTION\n',
       'FUNCTION inc() RETURNS\nENDFUNCTION\n', 'TYPE R2\nDECLARE n\nENDTYPE\n', 'TYPE R2\nOUTPUT 1\nENDTYPE\n', 'PROCEDURE inc(z : INTEGER)\nOUTPUT "x"\nENDFUNCTION\n', 'IF TRUE THEN\ni <- 50\nENDIF\nOUTPUT (\n']
# other failures: what happened before the failure stays
OTHER = ['OUTPUT 1, 2 / 0', 'OUTPUT "a", nosuch, "b"', 'CALL bad(i)', 'CALL bad(a[2])', 'i <- badf(2)', 'OUTPUT badf(1)', 'badf(0)', 'CALL nosuch(i)', 'CALL inc("x")', 'CALL inc(5)', 'CALL inc(K)', 'CALL inc()', 'nosuch', 'nosuch(1)', 'dbl("x")', 'dbl()', 'a', 'a[9]', 'x.nosuch', 'p^ <- "x"', 'BREAK', 'CONTINUE', '1 / 0',
         'TYPE E = (z0, z1)', 'TYPE P = ^REAL', 'INPUT K', 'INPUT a', 'INPUT d', 'i <- ptr()^', 'LEFT("a", 5)', 'CHR(-1)', 'EOF("none")',
         'IF i > 0 THEN\ni <- 50\nOUTPUT 1 / 0\ni <- 60\nENDIF\n', 'IF "x" THEN\nOUTPUT 1\nENDIF\n', 'FOR j <- 1 TO 3\ni <- i + j\na[j + 1] <- j\nNEXT j\n', 'WHILE i < 100 DO\ni <- i + 30\ns <- s & nosuch\nENDWHILE\n', 'REPEAT\nr <- r + 1\nUNTIL r / 0 = 1\n', 'CASE OF i\n1: OUTPUT 1\nOTHERWISE: i <- 70\nOUTPUT nosuch\nENDCASE\n',
         'PROCEDURE inc(z : INTEGER)\nOUTPUT "redefined"\nENDPROCEDURE\n', 'FUNCTION dbl(z : STRING) RETURNS STRING\nRETURN "redefined"\nENDFUNCTION\n', 'TYPE R\nDECLARE other : STRING\nENDTYPE\n', 'FOR K <- 1 TO 2\nOUTPUT K\nNEXT K\n', 'PROCEDURE LEFT()\nENDPROCEDURE\n', 'FUNCTION newf(z : NoType) RETURNS INTEGER\nRETURN 1\nENDFUNCTION\n',
         'IF TRUE THEN\nBREAK\nENDIF\n', 'FOR j <- 1 TO 2\nCALL bad(i)\nNEXT j\n', 'TYPE R3\nDECLARE n : NoType\nENDTYPE\n', 'PROCEDURE newp(z : NoType)\nENDPROCEDURE\n']

VALID = ['i <- i + 1', 'OUTPUT i, s, a[2]', 'a[i MOD 3 + 1] <- i', 's <- s & "x"', 'x.n <- x.n + i', 'y <- x', 'CALL inc(i)', 'dbl(i)', 'e <- e + 1', 'p^ <- p^ + 2', 'READFILE "in.txt", s', 'WRITEFILE "w.txt", i', 'WRITEFILE "ap.txt", s', 'GETRECORD "r.dat", i', 'PUTRECORD "r.dat", i', 'SEEK "r.dat", 3',
         'FOR j <- 1 TO 2\ni <- i + j\nNEXT j\n', 'IF i > 5 THEN\nOUTPUT "big"\nELSE\nOUTPUT "small"\nENDIF\n', 'newvar <- i', 'CONSTANT C2 = 3', 'DECLARE z : R', 'TYPE G = (ga, gb)', 'CLOSEFILE "w.txt"', 'OPENFILE "none.txt" FOR WRITE', 'd <- 1/2/2003', 'EOF("in.txt")', 'PROCEDURE newp()\nOUTPUT "newp", i\nENDPROCEDURE\n', 'p <- ^a[2]'.replace('a[2]', 'i')]
SMALL = ['i <- i + 1', 'OUTPUT i, s, a[2]', 'READFILE "in.txt", s', 'WRITEFILE "w.txt", i', 'GETRECORD "r.dat", i', 'PUTRECORD "r.dat", i', 'newvar <- i', 'CALL inc(i)', 'y <- x', 'FOR j <- 1 TO 2\ni <- i + j\nNEXT j\n']
PROBE = ['i', 'r', 'b', 'c', 's', 'd', 'a[1]', 'a[2]', 'a[3]', 'm[1, 1]', 'e', 'f', 'p', 'p^', 'x.n', 'x.t', 'x.v[2]', 'y.n', 'q.n', 'K', 'S', 'x', 'dbl(3)', 'newvar', 'newarr[1]', 'EOF("in.txt")', 'CALL inc(i)', 'i', 'DECLARE newvar : INTEGER', 'newvar', 'TYPE E2 = (g0, g1)', 'g1', 'CALL newp()', 'newf(1)',
         'GETRECORD "r.dat", i', 'i', 'READFILE "in.txt", s', 's', 'WRITEFILE "w.txt", "end"', 'WRITEFILE "ap.txt", "end"', 'PUTRECORD "r.dat", i', 'OPENFILE "q.txt" FOR WRITE', 'CLOSEFILE "w.txt"']


def transcript(r):
    """What each entry printed."""
    return [(l, [t for t in o if t[:2] != '. ']) for l, o in by_entry(r.out) if l]


_base = {}


def failed(out, pos):
    """Entry number pos of a session printed only the blank line that precedes a diagnostic."""
    k = -1
    got = []
    for l in out.split('\n')[2:]:
        if l[:2] == '> ' and l != '> ':
            k += 1
        elif k == pos and l[:2] != '. ' and l != '> ':
            got.append(l)
    return got[:1] == ['']


def without(ctx, hist):
    """The session without the failing entries."""
    key = tuple(hist)
    if key not in _base:
        x, r = ctx.repl(lines_of(PRE + list(hist) + PROBE), files=FFILES)
        _base[key] = (transcript(r), r.files, r.err)
        if len(_base) > 500:
            _base.clear()
            _base[key] = (transcript(r), r.files, r.err)
    return _base[key]


def noeffect(ctx, hist, fails):
    """Each failing entry alone at each position: everything else as if it had not been made."""
    t0, f0, e0 = without(ctx, hist)
    n0 = len(client.parse_diags(e0))
    for f in fails:
        for k in range(len(hist) + 1):
            ents = PRE + list(hist[:k]) + [f] + list(hist[k:]) + PROBE
            r = ctx.run('', (), lines_of(ents), FFILES, listing=True)
            ds = ctx.orderly(r, True)
            t = transcript(r)
            pos = len(PRE) + k
            if len(t) != len(t0) + 1:
                raise Mismatch('%r: %d entries were executed, expected %d' % (f, len(t), len(t0) + 1))
            line, printed_ = t[pos]
            if line != f.split('\n')[0]:
                raise Mismatch('%r is not entry %d of the session' % (f, pos))
            if not failed(r.out, pos):
                ctx.skip('the entry does not fail here')
                continue
            rest = t[:pos] + t[pos + 1:]
            for (l, a), (l2, b) in zip(rest, t0):
                if (l, [v for v in a if v]) != (l2, [v for v in b if v]):
                    raise Mismatch('after the failing entry %r, %r prints %r instead of %r' % (f, l, a, b))
            if r.files != f0:
                raise Mismatch('the failing entry %r changed files: %r, expected %r' % (f, r.files, f0))
            if len(ds) != n0 + 1:
                raise Mismatch('%d diagnostics with the failing entry %r, %d without' % (len(ds), f, n0))
            ctx.validated += 1
            ctx.steps += len(t)
            ctx.observe((r.out, r.err))


def together(ctx, hist, fails):
    """All of them at every position, with probes, against the model."""
    ents = list(PRE)
    for k in range(len(hist) + 1):
        ents += fails
        if k < len(hist):
            ents.append(hist[k])
    ctx.repl(lines_of(ents + PROBE), files=FFILES)


def modelled(ctx, hist, fails):
    """Each alone at each position, against the model."""
    for f in fails:
        for k in range(len(hist) + 1):
            ctx.repl(lines_of(PRE + list(hist[:k]) + [f] + list(hist[k:]) + PROBE), files=FFILES)


HIST = ['i <- i + 1', 'i <- "no"', 'OUTPUT i, a[2]', 'CALL bad(i)', 'READFILE "in.txt", s', 'IF i > 5 THEN\nOUTPUT "big"\nOUTPUT 1 / 0\nENDIF\n', 'RUNFILE prog.pse', 'nv <- i',
        'RUNFILE bad.pse', 'nv', 'FOR j <- 1 TO\n', 'WRITEFILE "w.txt", i']
HPRE = [e for e in PRE if e.split()[0] in ('DECLARE', 'OPENFILE', 'PROCEDURE', 'i', 'a[2]') and not any(w in e for w in (': R', ': E', ': F', ': P', ': Q'))]


def hist_check(ctx, hs):
    for h in hs:
        ctx.repl(lines_of(HPRE + list(h) + ['i', 'a[2]', 'nv', 's', 'CALL inc(i)', 'i']), files=FFILES)


# ---------------------------------------------------------------- echo

ECHO_PRE = PRE[:25] + ['DECLARE u : ARRAY[1:2] OF R', 'TYPE PR = ^R', 'DECLARE pr : PR', 'TYPE PP = ^P', 'DECLARE pp : PP']
ECHO = ['i', 'r', 'b', 'c', 's', 'd', 'e', 'f', 'p', 'x', 'a[1]', 'm[0, 1]', 'x.n', 'x.t', 'x.v[1]', 'u[1]', 'u[2].n', 'K', 'S', 'ea', 'fb', '5', '-5', '0', '9223372036854775807', '5.0', '0.0', '2.5', '-2.5', '100000.0', '1234567.0', '12345678901.0', '0.1 + 0.2', '1 / 3', '10 / 4', '10 / 5', '1 / 8', '1000000 / 7',
        '100000000000.0 * 10', '0.001', '0.00001', '0.5', '-0.5', 'TRUE', 'FALSE', 'NOT TRUE', '1 < 2', '"text"', '""', '"a b"', '"q\\"q"', '"it\'s"', '"tab\\tx"', '"nl\\nx"', "'c'", "' '", "'\\''", "'\"'", '1/2/2003', '29/2/2000', '01/02/0003', 'ea + 1', 'ea - 1', '1 + ec', 'dbl(4)', 'ptr()', 'LENGTH("abc")', 'LEFT("abc", 2)',
        'MID("abc", 2, 1)', 'TO_UPPER("a")', 'UCASE(\'a\')', 'ASC(\'A\')', 'CHR(66)', 'INT(2.7)', 'IS_NUM("5")', 'STR_TO_NUM("2.5")', 'NUM_TO_STR(3)', 'DAY(1/2/2003)', 'SETDATE(1, 2, 2003)', 'EOF("none")', '"a" & "b"', '"a" & 5', '1 & 2', '(5)', '((2 + 3) * 4)', '5 DIV 2', '5 MOD 2', '5 MOD 0', '7.0 DIV 2', 'INTEGER(2.5)', 'REAL(2)', 'STRING(2.5)',
        'STRING(TRUE)', 'BOOLEAN(0)', 'a', 'm', 'x.v', 'nosuch', 'inc', 'inc(i)', 'dbl', 'E', 'R', 'p^', 'i = 0', '"a" = "a"', "'a' < 'b'", '1/1/2000 < 1/1/2001', 'ea = eb', 'TRUE AND FALSE', 'TRUE OR FALSE', '-i', '-r', '-(-3)', '5 // comment', '  5', '5  ', '// only a comment', '   ', '\\']
ECHO = ECHO[:-1]
SETUP = ['p <- ^i', 'p <- ^a[1]', 'pr <- ^x', 'pr <- ^u[1]', 'pp <- ^p', 'x.n <- 3', 'c <- \'z\'', 's <- "new"', 'd <- 1/2/2003', 'e <- ec', 'r <- 3', 'p <- ptr()', 'p <- ^x.n', 'p <- ^x.v[2]', 'u[1] <- x']
ECHO2 = ['p', 'p^', 'pr', 'pr^', 'pr^.n', 'pp', 'pp^', 'pp^^', 'x', 'u[1]', 'c', 's', 'd', 'e', 'r', 'ptr()', 'p = p']
BODY = ['IF TRUE THEN\n%s\nENDIF\n', 'FOR j <- 1 TO 2\n%s\nNEXT j\n', 'WHILE i < 2 DO\ni <- i + 1\n%s\nENDWHILE\n', 'PROCEDURE pb()\n%s\nENDPROCEDURE\n\nCALL pb()', 'FUNCTION fb2() RETURNS INTEGER\n%s\nRETURN 4\nENDFUNCTION\n\nfb2()', 'CASE OF i\n0: %s\nENDCASE\n', 'REPEAT\n%s\nUNTIL TRUE\n']


# every printable value at every place a value can stand
GRID = {
    'INTEGER': ['0', '1', '-1', '10', '-10', '1000000', '2147483648', '-2147483649', '9223372036854775807', '-9223372036854775807'],
    'REAL': ['0.0', '-0.0', '1.0', '-1.0', '-2.0', '-2', '2', '0.5', '-0.5', '1.5', '-7.25', '0.1', '-0.1', '0.000001', '0.0000001', '-0.0000004', '123456.789', '-123456.0', '999999.0', '1000000.0', '9999999.5', '-10000000.0', '100000000000.0', '12345678901.0', '-12345678901.5',
             '100000000000000000000.0', '1.0 / 3', '-2.0 / 3', '10 / 5', '-10 / 5', '0.1 + 0.2', '1.000001', '0.999999', '0.9999999', '99.9999999'],
    'BOOLEAN': ['TRUE', 'FALSE'],
    'CHAR': ["'a'", "' '", "'0'", "'\"'", "'\\''", "'\\n'", "'\\\\'"],
    'STRING': ['""', '" "', '"a"', '"  two  words "', '"q\\"q"', '"it\'s"', '"5"', '"TRUE"', '"a\\nb"', '"\\\\"', '"' + 'x' * 200 + '"'],
    'DATE': ['1/1/1', '31/12/9999', '9/9/99', '29/2/2000', '01/02/0003', '10/10/1000'],
    'E': ['ea', 'eb', 'ec'],
}


def echo_grid(ctx, t, v):
    """The value is echoed (and OUTPUT) as literal, variable, parameter, element, field, constant, result and through a pointer."""
    pre = ['TYPE E = (ea, eb, ec)', 'DECLARE x : %s' % t, 'DECLARE a : ARRAY[1:2] OF %s' % t, 'TYPE R\nDECLARE f : %s\nDECLARE g : ARRAY[0:1] OF %s\nENDTYPE' % (t, t), 'DECLARE r : R', 'TYPE P = ^%s' % t, 'DECLARE p : P',
           'FUNCTION id(q : %s) RETURNS %s\nRETURN q\nENDFUNCTION' % (t, t), 'FUNCTION lit() RETURNS %s\nRETURN %s\nENDFUNCTION' % (t, v), 'FUNCTION br(BYREF q : %s) RETURNS %s\nq <- %s\nRETURN q\nENDFUNCTION' % (t, t, v)]
    ents = [v, '(%s)' % v, 'id(%s)' % v, 'lit()', 'x <- %s' % v, 'x', 'x', 'a[2] <- x', 'a[2]', 'a[1]', 'r.f <- x', 'r.f', 'r.g[1] <- %s' % v, 'r.g[1]', 'p <- ^x', 'p^', 'p <- ^a[2]', 'p^', 'id(x)', 'id(a[2])', 'a[1] <- lit()', 'a[1]', 'br(a[1])', 'br(x)', 'OUTPUT x',
            'OUTPUT %s, a[2], r.f' % v, 'new <- %s' % v, 'new', 'new = x', 'x = %s' % v]
    if ' ' not in v.strip('"\'') and not v.startswith('-') and t != 'E' and '/' not in v:
        ents += ['CONSTANT K = %s' % v, 'K', 'id(K)']
    if t in ('INTEGER', 'REAL'):
        ents += ['-x', '-(%s)' % v, 'x + 0', 'x * 1', 'x - x', 'x * -1', '0 - x', 'x + 0.0', 'x * 1.0', 'INT(x)' if t == 'REAL' and abs(eval(v)) < 1e18 else 'x', 'REAL(x)', 'STRING(x)', '"" & x', 'x & x']
    if t in ('BOOLEAN', 'DATE', 'CHAR', 'STRING'):
        ents += ['STRING(x)', '"" & x', 'x & "|"']
    ctx.repl(lines_of([e + '\n' if '\n' in e else e for e in pre] + ents))


def sess(ctx, ents, **kw):
    ctx.repl(lines_of(ents), files=FFILES, **kw)


FORMS = [
    ['?', '5'], ['? ', '5'], ['??', '5'], ['EXIT', '5'], ['EXIT ', '5'], [' EXIT', '5'], ['exit', '5'], ['EXITS <- 4', 'EXITS'], ['', '', '5'], ['  ', '5'], ['\t5'.replace('\t', ' '), '5'], ['// c', '5'],
    ['IFx <- 3', 'IFx'], ['FORM <- 3', 'FORM'], ['TYPEX <- 3', 'TYPEX'], ['CASEY <- 3', 'CASEY'], ['WHILE1 <- 3', 'WHILE1'], ['REPEATED <- 3', 'REPEATED'], ['FUNCTIONAL <- 3', 'FUNCTIONAL'], ['PROCEDURES <- 3', 'PROCEDURES'], ['RUNFILEX <- 3', 'RUNFILEX'], ['IF_ <- 1', 'IF_'], ['if <- 3', 'if'], ['For <- 3', 'For'],
    ['TYPE E=(aa, bb)', 'bb'], ['TYPE E = (aa, bb) // x = 5', 'bb'], ['TYPE P = ^INTEGER', 'DECLARE p : P', 'p'], ['TYPE R // = comment', 'DECLARE n : INTEGER', 'ENDTYPE', '', 'DECLARE r : R', 'r'], ['TYPE R', 'DECLARE n : INTEGER // n = 5', 'ENDTYPE', '', 'DECLARE r : R', 'r', 'r.n'],
    [' IF TRUE THEN', 'OUTPUT 1', 'ENDIF', '', '5'], ['  FOR i <- 1 TO 2', '  OUTPUT i', '  NEXT i', '', 'i'], ['IF TRUE THEN // comment', 'OUTPUT 1 // c', '// c', 'ENDIF // c', '', '5'], ['IF(TRUE) THEN', 'OUTPUT 1', 'ENDIF', '', '5'], ['WHILE(FALSE)', 'ENDWHILE', '', '5'],
    ['PROCEDURE a()', 'OUTPUT "a"', 'ENDPROCEDURE', 'CALL a()', '', 'CALL a()'], ['IF TRUE THEN', 'OUTPUT 1', 'ENDIF', 'OUTPUT 2', 'x <- 3', 'x', '', 'x'], ['IF TRUE THEN', '  ', 'OUTPUT 1', ' ', 'ENDIF', '', '5'],
    ['RUNFILE prog.pse', '5'], ['RUNFILE prog.pse  ', '5'], ['RUNFILE bad.pse', '5'], ['RUNFILE syn.pse', '5'], ['i <- 3', 'RUNFILE prog.pse', 'i', 'only', 'CALL inc(i)'], ['RUNFILE prog.pse', 'RUNFILE prog.pse', 'RUNFILE bad.pse', 'RUNFILE prog.pse', '1 / 0', '5'],
    ['OPENFILE "w2.txt" FOR WRITE', 'WRITEFILE "w2.txt", "session"', 'CLOSEFILE "w2.txt"', 'RUNFILE prog.pse', 'OPENFILE "w2.txt" FOR READ', 'READFILE "w2.txt", l', 'l', 'CLOSEFILE "w2.txt"'],
    ['i <- 5', 'CALL nosuch', 'RUNFILE prog.pse', '1 / 0', 'x', 'i'],
    ['INPUT a', 'typed words', 'a', 'INPUT b', '', 'b', 'DECLARE n : INTEGER', 'INPUT n', '42', 'n', 'INPUT n', 'EXIT', 'n', 'INPUT a', '1 / 0', 'a', 'INPUT a', '? ', 'a'],
    ['IF TRUE THEN', 'INPUT a', 'OUTPUT a', 'ENDIF', '', 'typed', 'a'],
    ['OUTPUT "a"', 'PRINT "b"', 'OUTPUT "c", 1, TRUE', 'OUTPUT ""', 'OUTPUT "x\\ny"'],
    ['x <- 5 // c', 'x // c'], ['x<-5', 'x'], ['DECLARE x:INTEGER', 'x'], ['CONSTANT k <- 5', 'k'], ['CONSTANT k = 5', 'k <- 6', 'k'],
    ['a <- 1', 'a <- "text"', 'a'], ['a <- 1', 'a <- 2.5', 'a'], ['a <- 1.5', 'a <- 2', 'a'],
]


def missing(ctx, name):
    r = ctx.run('', (), lines_of(['i <- 3', 'RUNFILE ' + name, 'i + 1', 'OUTPUT "still here"']), listing=True)
    ctx.orderly(r, True)
    t = [(l, [v for v in o if v]) for l, o in transcript(r)]
    if t[-2:] != [('i + 1', ['4']), ('OUTPUT "still here"', ['still here'])]:
        raise Mismatch('after RUNFILE of a missing file: %r' % (t,))
    ctx.validated += 1


def long_session(ctx, n, kind):
    """Many entries: definitions made early are used after many others."""
    ents = ['PROCEDURE early(k : INTEGER)\nDECLARE loc : ARRAY[1:2] OF STRING\nloc[1] <- "early " & k\nOUTPUT loc[1]\nENDPROCEDURE\n', 'FUNCTION old(k : INTEGER) RETURNS STRING\nRETURN "old " & (k * 2)\nENDFUNCTION\n',
            'TYPE E = (e0, e1, e2)', 'TYPE R\nDECLARE f : E\nDECLARE n : INTEGER\nENDTYPE\n', 'CONSTANT K = "long constant string, longer than any small buffer"', 'DECLARE r : R', 'DECLARE t : INTEGER']
    for i in range(n):
        if kind == 'mix':
            ents.append(['t <- t + %d' % i, 'v%d <- "value number %d"' % (i, i), 'OUTPUT t', 'nosuch%d' % i, 'x <- (', 'CALL early(%d)' % i, 'old(%d)' % i, 'r.f <- r.f + 1', 'r.f', 'DECLARE w%d : R' % i, 'IF t > 5 THEN\nt <- t - 5\nENDIF\n', 'K', 'CALL early("x")',
                         'PROCEDURE p%d()\nOUTPUT "p%d", t\nENDPROCEDURE\n' % (i, i), 'CALL p%d()' % (i - 1), '"unterminated', 'OUTPUT K & %d' % i][i % 17])
        else:
            ents.append('PROCEDURE p%d(k : INTEGER)\nOUTPUT "p%d ", k\n%sENDPROCEDURE\n' % (i, i, 'CALL p%d(k + 1)\n' % (i - 1) if i % 7 else ''))
    for i in range(0, n, 13):
        ents.append('CALL p%d(%d)' % (i, i) if kind != 'mix' or i % 17 == 13 else 'CALL early(%d)' % i)
    ctx.repl(lines_of(ents), model_kw=dict(steps=200000))


def cases(tier):
    q = tier == 'quick'
    for n in PROGRAMS:
        yield (corpus, n)
    for f in FORMS:
        yield (sess, f)
        yield (sess, PRE + f)
    for n in ('nosuch.pse', 'no dir/x', '.', '/nonexistent/x', 'x' * 300, 'in.txt.'):
        yield (missing, n)
    for t in GRID:
        for v in GRID[t]:
            yield (echo_grid, t, v)
    for x in ECHO:
        yield (sess, ECHO_PRE + [x, 'i'])
        for b in BODY:
            yield (sess, ECHO_PRE + [b % x, 'i'])
    for a in itertools.product(SETUP, repeat=1 if q else 2):
        for b in ECHO2:
            yield (sess, ECHO_PRE + list(a) + [b])
    for k in (50, 300) if q else (50, 300, 1500):
        yield (long_session, k, 'mix')
        yield (long_session, k, 'procs')
    # failing entries
    noeff = FAIL + SYN
    for k in (0, 1):
        for h in itertools.product(VALID, repeat=k):
            for f in chunks(noeff, 15):
                yield (noeffect, h, f)
            for f in chunks(noeff + OTHER, 15):
                yield (modelled, h, f)
    for h in itertools.product(SMALL[:7] if q else VALID, repeat=2):
        for f in chunks(FAIL[::1], 12):
            yield (noeffect, h, f)
    if not q:
        for h in itertools.product(VALID, repeat=2):
            for f in chunks(OTHER, 12):
                yield (modelled, h, f)
    for k in range(0, 2 if q else 3):
        for h in itertools.product(VALID, repeat=k):
            for f in chunks(FAIL + SYN + OTHER, 40):
                yield (together, h, f)
            for f in chunks((FAIL + SYN + OTHER)[::-1], 37):
                yield (together, h, f)
    # histories
    al = HIST[:7] if q else HIST
    for k in range(1, 6):
        if not q and k == 5:
            al = HIST[:9]
        for c in chunks(itertools.product(al, repeat=k), 50):
            yield (hist_check, c)
    yield from scale.cases(tier, 'C12')
    yield from merge.cases(tier, 'C12', repl=True)
    for k in (2, 3, 4, 5, 6, 7, 8, 9, 13, 15, 17, 19):
        yield from rerun.cases(tier, 'C%02d' % k, n=2, modes='CF')
    yield from transport.cases(tier, 'C12', repl=True)
    for mod in ('c04', 'c07') if q else ('c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c15', 'c19'):
        for case in importlib.import_module(mod).cases('quick'):
            if case[0].__module__ in ('rerun', 'transport', 'merge'):
                continue  # these have a family of their own here
            yield (other,) + tuple(case)
