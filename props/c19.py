"""C19: enumerated values keep their type and cycle through their declared order."""
import itertools

from engine import Mismatch
from gen import batch, chain, chunks, prog, session
import names as namesets
import merge
import rerun
import transport
import scale

INFO = dict(
    rule='every enumerated type of 1..8 names (thorough: 1..16, plus 255..257, 1000), every start position, every k in [-40, 40] on either side of + and on the right of -, from every kind of operand '
         '(name, variable, element, field, pointed-to variable, parameter by value and by reference, result of a function, constant) and 64-bit boundary k; every ordered pair of positions under = and <>; every ordered '
         'pair of types x every kind of source x every store channel; type definitions at global level, in procedures called repeatedly and recursively, in two procedures under one name, and in REPL sessions; judged by '
         'the reference model',
    assumptions=['INTEGER - enumerated value, and a name declared by two enumerated types, are not asserted'],
    flavor={'quick': 'plain', 'thorough': 'asan'})

K64 = ['9223372036854775807', '9223372036854775806', '-9223372036854775807', '(-9223372036854775807 - 1)', '4294967296', '4294967295', '4294967297', '-4294967296', '-4294967297', '2147483647',
       '2147483648', '-2147483648', '-2147483649', '1000000007', '-1000000007', '255', '256', '257', '-256', '-257', '65535', '65536', '-65537', '128', '127', '-128', '-129']


def names(n, p='e'):
    return ['%s%d' % (p, i) for i in range(n)]


def typedef(t, ns):
    return 'TYPE %s = (%s)\n' % (t, ', '.join(ns))


# how a value is held: (definitions, set-up with the value %s, expression)
HOLD = {
    'name': ('', '', '%s'),
    'var': ('DECLARE v : T\n', 'v <- %s\n', 'v'),
    'undeclared': ('', 'u <- %s\n', 'u'),
    'elem': ('DECLARE a : ARRAY[1:3] OF T\n', 'a[2] <- %s\n', 'a[2]'),
    'elem2': ('DECLARE m : ARRAY[0:1, -1:1] OF T\n', 'm[1, -1] <- %s\n', 'm[1, -1]'),
    'field': ('TYPE R\nDECLARE n : INTEGER\nDECLARE f : T\nDECLARE a : ARRAY[1:2] OF T\nENDTYPE\nDECLARE r : R\n', 'r.f <- %s\n', 'r.f'),
    'farr': ('TYPE R\nDECLARE n : INTEGER\nDECLARE f : T\nDECLARE a : ARRAY[1:2] OF T\nENDTYPE\nDECLARE r : R\n', 'r.a[2] <- %s\n', 'r.a[2]'),
    'deref': ('TYPE P = ^T\nDECLARE p : P\nDECLARE pv : T\np <- ^pv\n', 'p^ <- %s\n', 'p^'),
    'fn': ('DECLARE v : T\nFUNCTION f(x : T) RETURNS T\nRETURN x\nENDFUNCTION\n', '', 'f(%s)'),
    'fn0': ('DECLARE v : T\nFUNCTION g RETURNS T\nRETURN v\nENDFUNCTION\n', 'v <- %s\n', 'g()'),
    'sum': ('', '', '(%s + 0)'),
}


def arith(ctx, n, how, neg=True):
    """Every start x every k, the three forms."""
    ns = names(n)
    d, s, x = HOLD[how]
    src = typedef('T', ns) + d + 'DECLARE k : INTEGER\nDECLARE w : T\n'
    for e in ns:
        y = x.replace('%s', e)
        src += s.replace('%s', e) + 'FOR k <- -40 TO 40\nOUTPUT %s + k, " ", k + %s, " ", %s - k, " ", %s\nNEXT k\n' % (y, y, y, y)
        src += 'w <- %s + 1\nw <- w - 2\nw <- 1 + w\nOUTPUT w, w = %s, w <> %s\n' % (y, y, y)
    ctx.diff(src, model_kw=dict(steps=100000))


def lits(ctx, n, how):
    """Literal and 64-bit k."""
    ns = names(n)
    d, s, x = HOLD[how]
    src = typedef('T', ns) + d
    for e in ns:
        y = x.replace('%s', e)
        src += s.replace('%s', e)
        for k in list(range(-n - 1, n + 2)) + K64:
            src += 'OUTPUT %s + %s, %s + %s, %s - %s\n' % (y, k, k, y, y, k)
        src += 'OUTPUT %s + 1 + 1, 2 + %s - 3, (%s + 5) - (3 * 2), 1 + (%s - 1) + 9223372036854775807\n' % (y, y, y, y)
    ctx.diff(src, model_kw=dict(steps=100000))


def compare(ctx, n, h1, h2):
    """Every ordered pair of positions."""
    ns = names(n)
    d1, s1, x1 = HOLD[h1]
    d2, s2, x2 = HOLD[h2]
    src = typedef('T', ns) + d1 + ('' if d1 == d2 else d2.replace('DECLARE v : T\n', '') if 'DECLARE v : T\n' in d1 else d2)
    for a in ns:
        src += s1.replace('%s', a)
        for b in ns:
            if h1 == h2:
                y = a
            else:
                src += s2.replace('%s', b)
                y = x2.replace('%s', b)
            z = x1.replace('%s', a)
            src += 'OUTPUT %s = %s, %s <> %s, %s = %s, NOT (%s = %s)\n' % (z, y, z, y, y, z, y, z)
            src += 'IF %s = %s THEN\nOUTPUT "same", %s\nELSE\nOUTPUT "differ", %s, %s\nENDIF\n' % (z, y, z, z, y)
    ctx.diff(src)


def use(ctx, n):
    """CASE, loops, defaults, OUTPUT of several, WRITEFILE, record and array copies."""
    ns = names(n)
    src = typedef('T', ns) + 'DECLARE v, w : T\nDECLARE a, b : ARRAY[1:2] OF T\nTYPE R\nDECLARE f : T\nDECLARE g : ARRAY[1:2] OF T\nENDTYPE\nDECLARE r, q : R\nOUTPUT v, a[1], r.f, r.g[2]\n'
    src += 'FOR i <- 0 TO %d\nCASE OF v\n' % (2 * n)
    for e in ns[:-1] or ns:
        src += '%s: OUTPUT "is %s"\n' % (e, e)
    src += 'OTHERWISE: OUTPUT "last"\nENDCASE\nv <- v + 1\nNEXT i\n'
    src += 'v <- %s\nREPEAT\nOUTPUT v\nv <- v - 1\nUNTIL v = %s\nWHILE v <> %s\nOUTPUT v, " ", v + 1\nv <- v + 1\nENDWHILE\n' % (ns[-1], ns[0], ns[-1])
    src += 'FOR i <- 1 TO %d\na[1] <- v + i\na[2] <- v - i\nb <- a\na[1] <- v\nr.f <- v + i\nr.g[2] <- b[2]\nq <- r\nr.f <- %s\nOUTPUT b[1], b[2], q.f, q.g[2], r.f\nNEXT i\n' % (n, ns[0])
    src += 'OPENFILE "o.txt" FOR WRITE\nWRITEFILE "o.txt", v\nCLOSEFILE "o.txt"\n'
    ctx.diff(src)
    src = typedef('T', ns) + 'DECLARE v, w : T\nOPENFILE "r.dat" FOR RANDOM\n'
    for i, e in enumerate(ns):
        src += 'v <- %s\nSEEK "r.dat", %d\nPUTRECORD "r.dat", v\n' % (e, i + 1)
    for i, e in enumerate(ns):
        src += 'SEEK "r.dat", %d\nGETRECORD "r.dat", w\nOUTPUT w, w = %s, w + 1\n' % (i + 1, e)
    ctx.diff(src)


# ---------------------------------------------------------------- storing into another type

DEFS = ('TYPE A = (%s)\nTYPE B = (%s)\nDECLARE ga : A\nDECLARE gb : B\nDECLARE aa : ARRAY[1:2] OF A\nDECLARE ab : ARRAY[1:2] OF B\n'
        'TYPE RA\nDECLARE f : A\nENDTYPE\nTYPE RB\nDECLARE f : B\nENDTYPE\nDECLARE ra : RA\nDECLARE rb : RB\nTYPE PA = ^A\nTYPE PB = ^B\nDECLARE pa : PA\nDECLARE pb : PB\npa <- ^ga\npb <- ^gb\n'
        'FUNCTION fa(k : INTEGER) RETURNS A\nRETURN ga + k\nENDFUNCTION\nFUNCTION fb(k : INTEGER) RETURNS B\nRETURN gb + k\nENDFUNCTION\n')
SOURCES = ['b0', 'gb', 'ab[1]', 'rb.f', 'pb^', 'fb(0)', 'b0 + 0', '1 + gb', 'gb - 1', 'b%d', 'a0', 'ga', 'ga + 1', 'fa(1)', 'aa[2]', 'pa^',
           '0', '1', '0.0', 'TRUE', '"a0"', "'a'", '1/1/2000', 'ra', 'rb', 'pa', 'pb']
SINKS = [
    'ga <- %s\n',
    'aa[1] <- %s\n',
    'aa[2] <- %s\n',
    'ra.f <- %s\n',
    'pa^ <- %s\n',
    'loc <- ga\nloc <- %s\nOUTPUT loc\n',
    'PROCEDURE p(x : A)\nOUTPUT "in ", x\nga <- x\nENDPROCEDURE\nCALL p(%s)\n',
    'PROCEDURE p(BYVAL x : A)\nOUTPUT "in ", x\nENDPROCEDURE\nCALL p(%s)\n',
    'PROCEDURE p(k : INTEGER, BYVAL x : A)\nOUTPUT "in ", k, x\nENDPROCEDURE\nCALL p(4, %s)\n',
    'PROCEDURE p(BYREF x : A)\nOUTPUT "in ", x\nx <- a0\nENDPROCEDURE\nCALL p(%s)\n',
    'FUNCTION f(x : A) RETURNS A\nOUTPUT "in ", x\nRETURN x\nENDFUNCTION\nOUTPUT f(%s)\n',
    'FUNCTION f() RETURNS A\nOUTPUT "in"\nRETURN %s\nENDFUNCTION\nOUTPUT f()\nga <- f()\n',
    'PROCEDURE p()\nga <- %s\nOUTPUT "stored"\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p()\nDECLARE la : A\nla <- %s\nOUTPUT la\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p(x : A)\nx <- %s\nOUTPUT x\nENDPROCEDURE\nCALL p(a0)\n',
    'PROCEDURE p(BYREF x : A)\nx <- %s\nOUTPUT x\nENDPROCEDURE\nCALL p(ga)\n',
    'PROCEDURE p(BYREF x : A)\nx <- %s\nOUTPUT x\nENDPROCEDURE\nCALL p(aa[2])\n',
    'FOR i <- 1 TO 2\naa[i] <- %s\nOUTPUT aa[i]\nNEXT i\n',
    'IF TRUE THEN\nga <- %s\nENDIF\n',
    'CASE OF 1\n1: ga <- %s\nENDCASE\n'.replace('CASE OF 1', 'one <- 1\nCASE OF one'),
    'FOR ga <- %s TO 3\nOUTPUT ga\nBREAK\nNEXT ga\n',
    'x <- %s\nga <- x\n',
    'x <- %s\nPROCEDURE p(v : A)\nOUTPUT v\nENDPROCEDURE\nCALL p(x)\n',
]
PROBE = 'OUTPUT ga, gb, aa[1], aa[2], ab[1], ra.f, rb.f, pa^, pb^\n'
REVERSE = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']


def store(ctx, na, nb, sink, srcs):
    """One store channel with every source: in a program each, and as successive REPL entries."""
    defs = DEFS % (', '.join(names(na, 'a')), ', '.join(names(nb, 'b')))
    pre = 'ga <- a%d\naa[1] <- ga\ngb <- b%d\nab[1] <- gb\nrb.f <- b0 + 1\n' % (na - 1, nb - 1)
    for s in srcs:
        s = s.replace('%d', str(nb - 1))
        ctx.diff(defs + pre + PROBE + sink.replace('%s', s) + PROBE, lines=True)
        if 'OCEDURE p' not in sink and 'FUNCTION f' not in sink:
            ent = []
            for l in (defs + pre).split('\n'):
                ent.append(l)
            # a multi-line construct is one entry
            ctx.repl(to_repl(defs + pre + sink.replace('%s', s) + PROBE + 'ga <- a0\ngb <- b0\n' + PROBE))


BLOCKS = {'TYPE': 'ENDTYPE', 'PROCEDURE': 'ENDPROCEDURE', 'FUNCTION': 'ENDFUNCTION', 'FOR': 'NEXT', 'IF': 'ENDIF', 'CASE': 'ENDCASE', 'WHILE': 'ENDWHILE', 'REPEAT': 'UNTIL'}


def to_repl(src):
    """A program as a session: the lines of an outermost construct are one entry."""
    out, stack = [], []
    cur = []
    for l in src.split('\n'):
        if not l:
            continue
        w = l.split()[0]
        cur.append(l)
        if w in BLOCKS and not (w == 'TYPE' and '=' in l):
            stack.append(BLOCKS[w])
        elif stack and w == stack[-1]:
            stack.pop()
        if not stack:
            out.append('\n'.join(cur))
            cur = []
    lines = []
    for e in out:
        lines.append(e)
        w = e.split()[0]
        if w in BLOCKS and not (w == 'TYPE' and '=' in e.split('\n')[0]):
            lines.append('')
    return '\n'.join(lines) + '\n'


def outward(ctx, ty, s):
    """An enumerated value into a variable of a basic type."""
    for x in ('a0', 'ga', 'ga + 1', 'fa(0)'):
        src = DEFS % ('a0, a1, a2', 'b0, b1') + 'DECLARE v : %s\nOUTPUT "<", ga, ">"\n' % ty
        ctx.diff(src + s.replace('%t', ty).replace('%s', x) + 'OUTPUT "stored"\n', lines=True)


OUTW = ['v <- %s\n', 'PROCEDURE p(x : %t)\nOUTPUT "in"\nENDPROCEDURE\nCALL p(%s)\n', 'FUNCTION f() RETURNS %t\nRETURN %s\nENDFUNCTION\nx <- f()\n', 'PROCEDURE p(BYREF x : %t)\nOUTPUT "in"\nENDPROCEDURE\nCALL p(%s)\n',
        'DECLARE w : ARRAY[1:2] OF %t\nw[1] <- %s\n', 'OUTPUT %t(%s)\n']

OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR', '&']


def operators(ctx, op):
    """Every operator between enumerated values (same and different types) and with the basic types."""
    defs = DEFS % ('a0, a1, a2', 'b0, b1, b2')
    ctx_entries = []
    rights = ['a1', 'ga', 'b1', 'gb', '1', '-1', '1.0', 'TRUE', "'c'", '"s"', '1/1/2000', 'ra', 'pa', 'fa(1)']
    for l in ('a1', 'ga', 'fa(2)'):
        for r in rights:
            for x, y in ((l, r), (r, l)):
                if op == '-' and not (x[0] in 'agf' or x in ('b1', 'gb')):
                    continue        # what INTEGER - enumerated value means is not fixed
                ctx_entries.append('OUTPUT %s %s %s' % (x, op, y))
    batch(ctx, to_entries(defs + 'ga <- a2\ngb <- b2\n'), ctx_entries)


def to_entries(src):
    s = to_repl(src)
    out, cur, multi = [], [], False
    for l in s.split('\n'):
        if multi:
            if l:
                cur.append(l)
            else:
                out.append('\n'.join(cur))
                multi = False
            continue
        if not l:
            continue
        w = l.split()[0]
        if w in BLOCKS and not (w == 'TYPE' and '=' in l):
            multi, cur = True, [l]
        else:
            out.append(l)
    return out


# ---------------------------------------------------------------- definitions in procedures

def local(ctx, n, m, calls, rec):
    """A type defined in a procedure that is called repeatedly; another procedure defines the same name differently."""
    a, b, g = names(n, 'a'), names(m, 'b'), names(3, 'g')
    body = 'DECLARE v : T\nOUTPUT v\nFOR i <- -2 TO %d\nv <- %s + k\nv <- v + i\nOUTPUT v, " ", v - k, " ", i + v\nNEXT i\n'
    src = typedef('G', g) + 'DECLARE gv : G\n'
    src += 'PROCEDURE p(k : INTEGER)\n' + typedef('T', a) + body % (n + 1, a[0]) + ('IF k > 0 THEN\nCALL p(k - 1)\nOUTPUT "back ", v, " ", v + 1, " ", %s\nENDIF\n' % a[-1] if rec else '') + 'gv <- gv + 1\nOUTPUT gv\nENDPROCEDURE\n'
    src += 'PROCEDURE q(k : INTEGER)\n' + typedef('T', b) + body % (m + 1, b[-1]) + ('CALL p(k - 1)\nOUTPUT "back ", v, " ", v + 1\n' if rec else '') + 'ENDPROCEDURE\n'
    src += 'FUNCTION f(k : INTEGER) RETURNS G\n' + typedef('T', names(m, 'c')) + 'DECLARE v : T\nv <- c0 + k\nOUTPUT v\nRETURN g0 + k\nENDFUNCTION\n'
    for c in calls:
        src += 'OUTPUT f(%s)\n' % c[1] if c[0] == 'f' else 'CALL %s(%s)\n' % (c[0], c[1])
    src += 'OUTPUT gv, gv + 2\n'
    ctx.diff(src, lines=True, model_kw=dict(steps=60000))
    ctx.repl(to_repl(src), model_kw=dict(steps=60000))


def hidden(ctx, what, repl):
    """Names of a type defined in a procedure are not known outside, and a value does not leave as another type."""
    pre = 'TYPE T = (g0, g1, g2)\nDECLARE gt : T\n'
    if repl:
        ctx.repl(to_repl(pre + what))
    else:
        ctx.diff(pre + what, lines=True)


HIDDEN = [
    'PROCEDURE p()\nTYPE L = (x0, x1)\nOUTPUT x1\nENDPROCEDURE\nCALL p()\nOUTPUT x1\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nOUTPUT x1\nENDPROCEDURE\nCALL p()\nDECLARE v : L\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nCALL q()\nENDPROCEDURE\nPROCEDURE q()\nOUTPUT x1\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nDECLARE v : L\nv <- g1\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\ngt <- x1\nENDPROCEDURE\nCALL p()\nOUTPUT gt\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nDECLARE v : L\nv <- x1\ngt <- v + 1\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nOUTPUT x1 = g1, x1 <> g1\nENDPROCEDURE\nCALL p()\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nCALL q(x1)\nENDPROCEDURE\nPROCEDURE q(v : T)\nOUTPUT v\nENDPROCEDURE\nCALL p()\n',
    'FUNCTION f() RETURNS T\nTYPE L = (x0, x1)\nRETURN x1\nENDFUNCTION\nOUTPUT f()\n',
    'FUNCTION f() RETURNS T\nTYPE L = (x0, x1)\nRETURN g1 + 1\nENDFUNCTION\nOUTPUT f()\nOUTPUT f() + 1\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nTYPE L = (y0, y1)\nENDPROCEDURE\nCALL p()\n',
    'TYPE T = (h0, h1)\n',
    'TYPE gt = (h0, h1)\n',
    'TYPE g1 = (h0, h1)\n',
    'PROCEDURE p()\nTYPE L = (x0, x1)\nTYPE R\nDECLARE f : L\nENDTYPE\nDECLARE r : R\nOUTPUT r.f\nr.f <- x1\nOUTPUT r.f + 1, r.f\nENDPROCEDURE\nCALL p()\nCALL p()\n',
    'PROCEDURE p(n : INTEGER)\nTYPE L = (x0, x1, x2)\nDECLARE a : ARRAY[1:2] OF L\na[1] <- x0 + n\nIF n < 4 THEN\nCALL p(n + 1)\nENDIF\nOUTPUT a[1], a[2], a[1] = x1\nENDPROCEDURE\nCALL p(0)\n',
    'g1 <- g2\n', 'g1 <- 5\n', 'INPUT g1\n', 'DECLARE g1 : INTEGER\n', 'CONSTANT g1 = 5\n', 'CONSTANT c = g1\n',
    'OUTPUT g1 < g2\n', 'gt <- g3\n', 'OUTPUT T\n', 'OUTPUT T.g1\n', 'OUTPUT g1, " ", gt, " ", g2 + 1\n', 'OUTPUT -g1\n', 'OUTPUT NOT g1\n', 'OUTPUT g1 & "x"\n', 'OUTPUT STRING(g1)\n', 'OUTPUT INTEGER(g1)\n',
    'DECLARE a : ARRAY[0:2] OF INTEGER\na[g1] <- 5\n', 'DECLARE a : ARRAY[g0:g2] OF INTEGER\n', 'INPUT gt\n', 'FOR i <- g0 TO g2\nOUTPUT i\nNEXT i\n', 'FOR gt <- 1 TO 2\nOUTPUT gt\nNEXT gt\n', 'IF g1 THEN\nENDIF\n', 'WHILE g0\nENDWHILE\n',
    'OUTPUT LENGTH(g1)\n', 'OUTPUT LEFT("abc", g1)\n', 'OUTPUT CHR(g1)\n', 'OUTPUT NUM_TO_STR(g1)\n', 'gt <- "g1"\n', 'gt <- 1\n', 'gt <- gt\nOUTPUT gt\n', 'gt <- g2\ngt <- gt + gt\n', 'OUTPUT g1 + g1\n', 'OUTPUT g1 * 2\n', 'OUTPUT g1 + 1.0\n', 'OUTPUT g1 + TRUE\n',
    'OUTPUT g1 + "1"\n', 'OUTPUT 2 * g1\n', 'OUTPUT g1 MOD 2\n', 'OUTPUT g1 DIV 1\n', 'OUTPUT g1 / 1\n', 'OUTPUT g2 - g1\n',
    'CASE OF gt\n0: OUTPUT "zero"\ng0: OUTPUT "g0"\nOTHERWISE: OUTPUT "other"\nENDCASE\n',
    'TYPE U = (u0, u1, u2)\nCASE OF gt\nu0: OUTPUT "u0"\ng0: OUTPUT "g0"\nOTHERWISE: OUTPUT "other"\nENDCASE\n',
    'TYPE U = (u0, u1, u2)\nOUTPUT u0 = g0, u0 <> g0, gt = u0, g2 = u2, (g1 + 1) = (u1 + 1)\n',
]


def cross_file(ctx, na, nb):
    """A record of one type read into a variable of another type, in one run and in the next one."""
    defs = typedef('A', names(na, 'a')) + typedef('B', names(nb, 'b')) + 'DECLARE va : A\nDECLARE vb : B\n'
    put = 'OPENFILE "r.dat" FOR RANDOM\nva <- a%d\nPUTRECORD "r.dat", va\nCLOSEFILE "r.dat"\n' % (na - 1)
    get = 'OPENFILE "r.dat" FOR RANDOM\nSEEK "r.dat", 1\nGETRECORD "r.dat", vb\nOUTPUT "read ", vb\nCLOSEFILE "r.dat"\n'
    ctx.diff(defs + put + get)
    chain(ctx, [defs + put, defs + get])
    chain(ctx, [defs + put, defs + get.replace('vb', 'va')])
    ctx.repl(to_repl(defs + put + get + 'OUTPUT va, vb\nvb <- vb + 1\nOUTPUT va, vb\n'))


def cases(tier):
    yield from scale.cases(tier, 'C19')
    yield from rerun.cases(tier, 'C19')
    yield from transport.cases(tier, 'C19')
    yield from merge.cases(tier, 'C19')
    for s in namesets.cases(tier, "C19"):
        yield (prog, s)
    q = tier == 'quick'
    top = 8 if q else 16
    for n in range(1, top + 1):
        for h in HOLD:
            yield (arith, n, h)
            yield (lits, n, h)
        yield (use, n)
    for n in (255, 256, 257, 300) if q else (31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 300, 1000):
        yield (big, n)
    for n in range(1, 6 if q else 9):
        for h1 in HOLD:
            for h2 in HOLD:
                yield (compare, n, h1, h2)
    for na, nb in itertools.product((1, 2, 3) if q else (1, 2, 3, 4, 8), repeat=2):
        for s in SINKS:
            yield (store, na, nb, s, SOURCES)
        yield (cross_file, na, nb)
    for t in REVERSE:
        for s in OUTW:
            yield (outward, t, s)
    for op in OPS:
        yield (operators, op)
    cs = [('p', '0'), ('p', '3'), ('q', '2'), ('q', '-5'), ('f', '1')]
    for n, m in ((1, 1), (2, 3), (3, 2), (4, 1)) if q else itertools.product((1, 2, 3, 4, 8), repeat=2):
        for k in range(1, 4 if q else 5):
            for c in itertools.product(cs, repeat=k):
                yield (local, n, m, c, False)
                if k < 3:
                    yield (local, n, m, c, True)
    for h in HIDDEN:
        yield (hidden, h, False)
        yield (hidden, h, True)
    for n in range(1, 5 if q else 9):
        yield (session_hist, n, 2 if q else 3)


def big(ctx, n):
    ns = names(n)
    src = typedef('T', ns) + 'DECLARE v, w : T\nv <- e0\nFOR i <- 0 TO %d\nOUTPUT v, " ", v - %d, " ", i + v\nv <- v + 1\nNEXT i\n' % (n + 2, n - 1)
    for i in sorted({0, 1, n // 2, n - 2, n - 1, 127, 128, 255, 256} & set(range(n))):
        src += 'w <- e%d\nOUTPUT w, " ", w + 1, " ", w - 1, " ", w - 300, w = e%d, w = e0, w <> e%d\n' % (i, i, n - 1)
    ctx.diff(src, model_kw=dict(steps=60000))


def session_hist(ctx, n, depth):
    """All histories of session entries that define, move, compare and store values of two types."""
    pre = [typedef('T', names(n))[:-1], typedef('U', names(2, 'u'))[:-1], 'DECLARE v : T', 'DECLARE w : U']
    alpha = ['v <- v + 1', 'v <- e0', 'v <- v - 5', 'v <- w', 'w <- v', 'v <- u1', 'w <- u1', 'w <- 3 + w', 'x <- v', 'x <- w', 'v <- x', 'w <- x', 'v', 'x', 'v = x', 'v + 9223372036854775807']
    for h in itertools.product(alpha, repeat=depth):
        batch(ctx, pre, list(h), observe=[])
        ctx.observe(h)
