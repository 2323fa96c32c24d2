"""C20: --pedantic only rejects; it never changes the meaning of an accepted program."""
import importlib
import itertools
import re

import client
import psref
from engine import Ctx, Mismatch
from corpus import PROGRAMS, STDIN, FILES
from gen import chunks, session
from c10 import Prog
from c11 import spans
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='(a) every program of a corpus with all constructs (variables declared), every sequence of declared-only fragments up to the length bound, and every program of the listed other checks, run without '
         'the option, with -p and with --pedantic: byte-identical stdout, stderr, status and files unless the program uses a non-pedantic construct; (b) each of BREAK, CONTINUE, ELSE IF, every cast, undeclared '
         'assignment and undeclared INPUT inserted at every statement position of every corpus program and fragment sequence, every ELSE turned into ELSE IF, every literal wrapped in a cast: pedantic error naming the '
         'construct at its line, status 1, output and files as the reference model leaves them at that point (nothing for constructs seen by the lexer or parser); (c) the same entries in REPL sessions',
    assumptions=['a program that has both a syntax error and a non-pedantic construct, and an undeclared assignment that is never executed, are only required to behave as without the option or to be rejected'],
    technique='exhaustive enumeration of programs and insertion positions in both configurations, compared with each other and with the reference model',
    flavor={'quick': 'plain', 'thorough': 'plain'})

NAMES = {'BREAK': r'BREAK', 'CONTINUE': r'CONTINUE', 'ELSE IF': r'ELSE\s*IF', 'cast': r'(?i)cast', 'assign': r'(?i)assign', 'input': r'(?i)input|READ'}
OPTS = ['-p', '--pedantic']


def declared(name):
    """A corpus program with its global variables declared."""
    src = PROGRAMS[name]
    m = psref.Model(fs=psref.FS({f[2]: f[3] for f in FILES}), stdin=STDIN, steps=20000, depth=60, cells=20000, max_string=1 << 16)
    try:
        m.run_file(src)
    except (psref.Unspecified, psref.Budget):
        pass
    pre = ''
    for n, c in m.glob.vars.items():
        ty = getattr(c, 'ty', None)
        if ty in psref.PRIM and not re.search(r'(DECLARE|CONSTANT)[^\n:=<]*\b%s\b' % n, src) and not re.search(r'FOR\s+%s\b' % n, src):
            pre += 'DECLARE %s : %s\n' % (n, ty.k)
    return pre + src


FRAG = [
    'i <- 5\nOUTPUT i\n',
    'r <- i / 2\nOUTPUT r, " ", i DIV 2, " ", i MOD 2\n',
    's <- "x" & i\nOUTPUT s, LENGTH(s)\n',
    'b <- i > 1 AND NOT FALSE\nOUTPUT b\n',
    'c <- \'q\'\nOUTPUT c\n',
    'd <- 1/2/2003\nOUTPUT d, DAY(d)\n',
    'IF i > 3 THEN\nOUTPUT "big"\nELSE\nIF i = 0 THEN\nOUTPUT "zero"\nENDIF\nENDIF\n',
    'CASE OF i\n0: OUTPUT "c0"\n1 TO 5: i <- i + 1\nOUTPUT "c15"\nOTHERWISE: OUTPUT "co"\nENDCASE\n',
    'FOR i <- 1 TO 3\nOUTPUT i\nNEXT i\n',
    'FOR undeclaredcounter <- 1 TO 2\nOUTPUT undeclaredcounter\nNEXT undeclaredcounter\n',
    'WHILE i < 3 DO\ni <- i + 1\nENDWHILE\nOUTPUT i\n',
    'REPEAT\ni <- i - 1\nUNTIL i <= 0\nOUTPUT i\n',
    'CALL p(i)\nOUTPUT i\n',
    'OUTPUT f(i) + 1\n',
    'a[2] <- i\na[1] <- a[2] + 1\nOUTPUT a[1], a[2]\n',
    'rec.n <- i\nrec2 <- rec\nOUTPUT rec2.n\n',
    'ptr <- ^i\nptr^ <- 9\nOUTPUT i, ptr^\n',
    'e <- e + 1\nOUTPUT e\n',
    'INPUT s\nOUTPUT s\n',
    'INPUT i\nOUTPUT i + 1\n',
    'INPUT a[1]\nOUTPUT a[1]\n',
    'INPUT rec.n\nOUTPUT rec.n\n',
    'OPENFILE "o.txt" FOR WRITE\nWRITEFILE "o.txt", s\nWRITEFILE "o.txt", i\nCLOSEFILE "o.txt"\n',
    'OPENFILE "in.txt" FOR READ\nREADFILE "in.txt", s\nOUTPUT s, EOF("in.txt")\nCLOSEFILE "in.txt"\n',
    'OPENFILE "in.txt" FOR READ\nREADFILE "in.txt", undeclaredline\nOUTPUT undeclaredline\nCLOSEFILE "in.txt"\n',
    'OPENFILE "r.dat" FOR RANDOM\nSEEK "r.dat", 1\nPUTRECORD "r.dat", i\nSEEK "r.dat", 1\nGETRECORD "r.dat", i\nCLOSEFILE "r.dat"\nOUTPUT i\n',
    'OUTPUT "BREAK CONTINUE ELSE IF INTEGER(1) x <- 5" // BREAK CONTINUE ELSE IF\n',
    'OUTPUT BREAKER, CONTINUED, ELSEIF\nBREAKER <- BREAKER + 1\nELSEIF <- 2\n',
    'OUTPUT INT(2.5), NUM_TO_STR(5), STR_TO_NUM("2.5"), TO_UPPER("ab"), CHR(65), ASC(\'A\')\n',
    'OUTPUT (5), -(5), (i) + (2)\n',
    'r <- i\nOUTPUT r\n',
    'IF b THEN\nOUTPUT "t"\nELSE\nOUTPUT "f"\nENDIF\n',
    'IF b THEN\nOUTPUT "t"\nELSE\n\n // comment\n IF TRUE THEN\nOUTPUT "nested"\nENDIF\nENDIF\n',
    'OUTPUT DIV(i, 2), MOD(i, 2), MOD(7, 4) + DIV(9, 2)\n', 'r <- 2.5 * -i\nOUTPUT r, -r, NOT b OR i < 2\n', 'REPEAT\nFOR q <- 3 TO 1 STEP -1\ni <- q\nNEXT q\nUNTIL TRUE\nOUTPUT i\n', 'READ s\nPRINT s\n',
    'OUTPUT d = SETDATE(1, 2, 2003), d < 1/1/2004\n', "CONSTANT kk = 'k'\nOUTPUT kk & \"x\" & i\n", 'DECLARE q : ARRAY[0:1, 0:1] OF STRING\nq[i - i, 1] <- s\nOUTPUT q[0, 1]\n', 'OUTPUT MID("abc", 2, 1) & LEFT(s, 0), IS_NUM("5"), UCASE(c)\n',
    # failing ones
    'OUTPUT nosuch\n', 'i <- "text"\n', 'K <- 5\n', 'OUTPUT 1 / (i - i)\n', 'a[5] <- 1\n', 'rec.zz <- 1\n', 'CALL nosuch(1)\n', 'READFILE "closed.txt", s\n', 'INPUT K\n', 'T <- 5\n', 'nosucharr[1] <- 5\n', 'nosuchrec.f <- 5\n', 'INPUT nosucharr[1]\n', 'e <- 5\n',
    'IF 5 THEN\nENDIF\n', 'OUTPUT a\n', 'DECLARE i : REAL\n', 'OUTPUT 5 +\n', 'IF TRUE THEN\n',
]
PRE = ('DECLARE i, j : INTEGER\nDECLARE r : REAL\nDECLARE s : STRING\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE d : DATE\nDECLARE a : ARRAY[1:3] OF INTEGER\nTYPE T = (e0, e1, e2)\nTYPE PI = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nENDTYPE\n'
       'DECLARE e : T\nDECLARE ptr : PI\nDECLARE rec, rec2 : R\nCONSTANT K = 3\nDECLARE BREAKER, CONTINUED, ELSEIF : INTEGER\nPROCEDURE p(BYREF x : INTEGER)\nDECLARE loc : INTEGER\nloc <- x\nx <- loc + 1\nENDPROCEDURE\n'
       'FUNCTION f(x : INTEGER) RETURNS INTEGER\nx <- x * 2\nRETURN x\nENDFUNCTION\n')

CASTS = ['INTEGER(2.5)', 'REAL(1)', 'STRING(5)', 'BOOLEAN(1)', 'CHAR("q")', 'INTEGER("7")', 'INTEGER(STRING(1))', '1 + INTEGER(TRUE)']
DIRTY = [('BREAK', 'BREAK\n'), ('CONTINUE', 'CONTINUE\n'), ('BREAK', 'WHILE TRUE DO\nBREAK\nENDWHILE\n'), ('BREAK', 'IF FALSE THEN BREAK\nENDIF\n'), ('CONTINUE', 'FOR q9 <- 1 TO 2\nCONTINUE\nNEXT q9\n'),
         ('ELSE IF', 'IF FALSE THEN\nELSE IF TRUE THEN\nENDIF\n'), ('ELSE IF', 'IF TRUE THEN\nOUTPUT 1\nELSE  IF FALSE THEN\nELSE\nENDIF\n'), ('ELSE IF', 'IF TRUE THEN\nELSE IF FALSE THEN\nELSE IF TRUE THEN\nENDIF\n'),
         ('assign', 'zq9 <- 5\n'), ('assign', 'zq9<-"text"\n'), ('assign', 'zq9 <- TRUE\n'), ('assign', "zq9 <- 'c'\n"), ('assign', 'zq9 <- 1/2/2003\n'), ('assign', 'zq9 <- 2.5\n'), ('assign', 'zq9 <- 1 + 2 * 3\n'),
         ('input', 'INPUT zq9\n'), ('input', 'READ zq9\n')] + \
        [('cast', 'OUTPUT %s\n' % c) for c in CASTS] + [('cast', 'IF INTEGER("1") = 1 THEN\nENDIF\n'), ('cast', 'PROCEDURE zp9()\nOUTPUT STRING(5)\nENDPROCEDURE\n')]


def same(a, b, what):
    if (a.kind, a.code, a.out, a.err, a.files) != (b.kind, b.code, b.out, b.err, b.files):
        for f in ('kind', 'code', 'out', 'err', 'files'):
            x, y = getattr(a, f), getattr(b, f)
            if x != y:
                raise Mismatch('%s with %s: %r, without: %r' % (f, what, y, x))


def named(r, construct, line):
    ds = client.parse_diags(r.err)
    if r.code != 1 or len(ds) != 1 or ds[0].kind != 'pedantic':
        raise Mismatch('%s is not rejected with a pedantic error: status %d, %r' % (construct, r.code, r.err[:300]))
    if not re.search(NAMES[construct], r.err):
        raise Mismatch('the pedantic error does not name %s: %r' % (construct, r.err[:300]))
    if line is not None and ds[0].line != line:
        raise Mismatch('the pedantic error for %s names line %r, expected %d' % (construct, ds[0].line, line))


def clean(ctx, src):
    """No non-pedantic construct: identical in the three configurations (and as the model says)."""
    x, r = ctx.diff(src, stdin=STDIN, files=FILES, lines=True)
    for o in OPTS:
        r2 = ctx.run(src, (o, '../p'), STDIN, FILES, listing=True)
        ctx.orderly(r2)
        same(r, r2, o)
    ctx.validated += 2
    ctx.observe((r.out, r.err))


def dirty(ctx, src, construct, line=None):
    """One non-pedantic construct; the model gives the output up to it."""
    m = psref.Model(stdin=STDIN)
    try:
        m.parse(src if src.endswith('\n') else src + '\n')
    except psref.SyntaxErr:
        ctx.skip('syntax error')
        for o in OPTS:
            ctx.orderly(ctx.run(src, (o, '../p'), STDIN, FILES, listing=True))
        return
    except psref.Unspecified:
        return
    x0, r0 = ctx.diff(src, stdin=STDIN, files=FILES)
    for o in OPTS:
        x, r = ctx.diff(src, stdin=STDIN, files=FILES, pedantic=o, check_files=True) if executed(src) else (None, ctx.run(src, (o, '../p'), STDIN, FILES, listing=True))
        if x is None:
            ctx.orderly(r)
            if r.code and client.parse_diags(r.err)[0].kind == 'pedantic':
                continue
            r1 = ctx.run(src, ('../p',), STDIN, FILES, listing=True)
            same(r1, r, o)
        elif x.errors and x.errors[0][0] == 'pedantic':
            named(r, construct, line if line is not None else x.errors[0][1])
            if construct in ('BREAK', 'CONTINUE', 'ELSE IF', 'cast'):
                out = '\n'.join(l for l in r.out.split('\n') if not l.startswith('Warning on line'))
                if out.strip('\n') or set(r.files) != {'in.txt'}:
                    raise Mismatch('something ran before %s was rejected: %r, files %r' % (construct, r.out, sorted(r.files)))


def executed(src):
    """The model meets a pedantic error."""
    m = psref.Model(fs=psref.FS({f[2]: f[3] for f in FILES}), stdin=STDIN, pedantic=True, steps=20000, depth=60, cells=20000, max_string=1 << 16)
    try:
        m.run_file(src)
    except (psref.Unspecified, psref.Budget):
        return False
    return bool(m.errors) and m.errors[0][0] == 'pedantic'


def insert_at(src, k, text):
    l = src.split('\n')
    return '\n'.join(l[:k] + text.rstrip('\n').split('\n') + l[k:])


def inserted(ctx, src, constructs):
    """Every line position."""
    n = src.count('\n')
    for k in range(n + 1):
        for c, t in constructs:
            dirty(ctx, insert_at(src, k, t), c)


def literal_casts(ctx, src):
    """Every literal and identifier of a program wrapped in every cast."""
    PROGRAMS['(declared)'] = src
    for a, e, t in spans('(declared)'):
        if t.t in ('INTEGER', 'REAL', 'STRING', 'CHAR', 'TRUE', 'FALSE', 'IDENTIFIER', 'INT', 'ID', 'IDENT', 'STR'):
            for ty in ('INTEGER', 'REAL', 'STRING', 'BOOLEAN', 'CHAR'):
                dirty(ctx, src[:a] + '%s(%s)' % (ty, src[a:e]) + src[e:], 'cast')


def else_if(ctx, src):
    lines = src.split('\n')
    for k, l in enumerate(lines):
        if l.strip() == 'ELSE':
            for c in ('TRUE', 'FALSE', '1 < 2'):
                for sp in (' ', '   ', '\t'):
                    dirty(ctx, '\n'.join(lines[:k] + [l + sp + 'IF %s THEN' % c] + lines[k + 1:]), 'ELSE IF')


def repl_pair(ctx, entries):
    """A session of declared-only entries: identical with the option."""
    s = session(entries)
    x, r = ctx.repl(s, files=FILES)
    for o in OPTS:
        r2 = ctx.run('', (o,), s, FILES, listing=True)
        ctx.orderly(r2, True)
        same(ctx.run('', (), s, FILES, listing=True), r2, o)


def repl_dirty(ctx, entries, k, construct, text):
    """The non-pedantic entry is rejected and has no effect; the session continues."""
    e = entries[:k] + [text] + entries[k:]
    probe = ['i', 's', 'OUTPUT a[1], a[2], rec.n, e', 'zq9']
    x, r = ctx.diff('', session(e + probe), pedantic='-p', repl=True, files=FILES)
    ds = client.parse_diags(r.err)
    if not any(d.kind == 'pedantic' for d in ds):
        raise Mismatch('%r is not rejected in a session' % text)
    if not re.search(NAMES[construct], r.err):
        raise Mismatch('the pedantic error does not name %s: %r' % (construct, r.err[:300]))
    if x is not None:
        a = ctx.run('', ('-p',), session(entries + probe), FILES, listing=True)
        if a.files != r.files:
            raise Mismatch('the rejected entry changed files')


def runfile(ctx, prog, pedantic_expected):
    """RUNFILE in a pedantic session."""
    s = session(['DECLARE before : INTEGER', 'before <- 3', 'RUNFILE prog.pse', 'OUTPUT before'])
    files = FILES + [('f', 0, 'prog.pse', prog)]
    for o in OPTS:
        x, r = ctx.diff('', s, pedantic=o, repl=True, files=files)
        ds = client.parse_diags(r.err)
        if x is not None and pedantic_expected != any(d.kind == 'pedantic' for d in ds):
            raise Mismatch('RUNFILE in a pedantic session: %r' % r.err[:300])


class Both(Ctx):
    """Runs every execution of another check also with the option."""

    def __init__(self, ctx):
        self.__dict__ = ctx.__dict__

    def run(self, prog='', args=('../p',), stdin='', files=(), wipe=True, listing=False, timeout_ms=10000, **kw):
        both = wipe and args[:1] not in (('-p',), ('--pedantic',)) and not re.search(r'\b(TODAY|TIME|HOURS|MINUTES|SECONDS|RUNFILE)\b', prog + stdin)
        # with the option first, so that later runs in the directory find the files of the run without it
        r2 = Ctx.run(self, prog, ('-p',) + tuple(args), stdin, files, wipe, True, timeout_ms, **kw) if both else None
        r = Ctx.run(self, prog, args, stdin, files, wipe, True if wipe else listing, timeout_ms, **kw)
        if not both:
            return r
        ds = client.parse_diags(r2.err)
        if args and not any(d.kind == 'pedantic' for d in ds) or not args and not client.parse_diags(r.err + r2.err):
            same(r, r2, '-p')
        if any(d.kind == 'pedantic' for d in ds):
            self.orderly(r2, not args)
            if args:
                justified(self, prog, stdin, r, r2)
        self.validated += 1
        return r


def justified(ctx, prog, stdin, r, r2):
    """A rejection needs a construct that is rejected, and what ran before it is a prefix."""
    m = psref.Model(stdin=stdin, pedantic=True)
    try:
        toks = psref.lex(prog if prog.endswith('\n') else prog + '\n')
    except (psref.SyntaxErr, psref.Unspecified):
        return
    ws = {t.t for t in toks} | {str(t.v) for t in toks}
    static = bool(ws & {'BREAK', 'CONTINUE'}) or any(a.t == 'ELSE' and b.t == 'IF' for a, b in zip(toks, toks[1:])) or \
        any((str(a.v) in psref.DATATYPES or a.t in psref.DATATYPES) and b.t == '(' for a, b in zip(toks, toks[1:]))
    dynamic = any(t.t in ('<-', 'INPUT', 'READ') or str(t.v) in ('<-', 'INPUT', 'READ') for t in toks)
    if not static and not dynamic:
        raise Mismatch('rejected by -p without a reason: %r' % r2.err[:300])
    if not static:
        a, b = r2.out.rstrip('\n'), r.out
        if r.kind == 'exit' and not b.startswith(a) and 'Warning on line' not in a + b:
            raise Mismatch('with -p the output before the rejection is %r, without %r' % (a[:300], b[:300]))


def other(ctx, fn, *args):
    b = Both(ctx)
    fn(b, *args)


def cases(tier):
    q = tier == 'quick'
    ok = [n for n in PROGRAMS]
    for n in ok:
        d = declared(n)
        if executed(d):
            yield (dirty, d, {'BREAK': 'BREAK', 'CONTINUE': 'CONTINUE', 'ELSE IF': 'ELSE IF', 'cast': 'cast', 'undeclared': 'assign'}[why(d)])
        else:
            yield (clean, d)
            for c in DIRTY:
                yield (inserted, d, [c])
            yield (literal_casts, d)
            yield (else_if, d)
    depth = 2 if q else 3
    for k in range(0, depth + 1):
        for fs in itertools.product(FRAG, repeat=k):
            if k == 3 and not (FRAG.index(fs[0]) < 33):
                continue
            yield (clean, PRE + ''.join(fs))
    for f in FRAG:
        for c in DIRTY:
            yield (inserted, PRE + f, [c])
    for f, g in itertools.product(FRAG[:26] if q else FRAG, repeat=2):
        for c in ([DIRTY[0], DIRTY[5], DIRTY[8], DIRTY[15], DIRTY[17]] if q else DIRTY):
            yield (dirty, PRE + f + c[1] + g, c[0])
    # REPL
    ent = [f.rstrip('\n') for f in FRAG if f.count('\n') == 1 and f.split()[0] not in ('INPUT', 'IF')] + ['FOR i <- 1 TO 2\nOUTPUT i\nNEXT i', 'IF b THEN\nOUTPUT 1\nELSE\nOUTPUT 2\nENDIF', 'i <- 4', 's <- "z"', 'i + 1', 's', 'e', 'INPUT s\nsome words']
    pre = []
    cur = []
    for l in PRE.rstrip('\n').split('\n'):
        w = l.split()[0]
        cur.append(l)
        if w in ('PROCEDURE', 'FUNCTION') or w == 'TYPE' and '=' not in l or len(cur) > 1 and not w.startswith('END'):
            continue
        pre.append('\n'.join(cur))
        cur = []
    for k in (1, 2) if q else (1, 2, 3):
        for h in itertools.product(ent, repeat=k):
            if k == 3 and h[0] not in ent[-10:]:
                continue
            yield (repl_pair, pre + list(h))
    for c, t in DIRTY:
        for h in itertools.product(ent, repeat=1 if q else 2):
            for k in range(len(h) + 1):
                yield (repl_dirty, pre + list(h), len(pre) + k, c, t.rstrip('\n'))
    for f in FRAG:
        yield (runfile, PRE + f, False)
    for c, t in DIRTY:
        yield (runfile, PRE + t, True)
        yield (runfile, PRE + 'OUTPUT "first"\n' + t + 'OUTPUT "second"\n', True)
    yield from scale.cases(tier, 'C20')
    yield from merge.cases(tier, 'C20', kw=dict(pedantic='-p'))
    for k in (3, 4, 5, 6, 7, 8, 9, 15, 19):
        yield from rerun.cases(tier, 'C%02d' % k, n=2, modes='AE', kw=dict(pedantic='-p'))
    yield from transport.cases(tier, 'C20', kw=dict(pedantic='-p'))
    # the spaces of other checks, in both configurations
    for mod in ('c05', 'c04', 'c07', 'c19') if q else ('c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c11', 'c13', 'c14', 'c15', 'c16', 'c17', 'c19'):
        for case in importlib.import_module(mod).cases('quick'):
            if case[0].__module__ in ('rerun', 'transport', 'merge'):
                continue  # these have a family of their own here
            yield (other,) + tuple(case)


def why(src):
    m = psref.Model(fs=psref.FS({f[2]: f[3] for f in FILES}), stdin=STDIN, pedantic=True)
    try:
        psref.lex(src if src.endswith('\n') else src + '\n', True)
        m.parse(src if src.endswith('\n') else src + '\n')
        m.run_file(src)
    except psref.PedanticErr as e:
        return e.what
    return 'undeclared'
