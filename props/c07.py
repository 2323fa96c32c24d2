"""C07: records are values: every copy is deep and independent."""
import itertools

from gen import batch, batches, prog
import names
import paths
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='all histories up to the depth over an alphabet of record copies (assignment, nested field, array element, BYVAL/BYREF call, function result, pointer, '
         'whole arrays of records) and field writes on a set of record variables with nested records, array fields and arrays of records, dumping every '
         'field of every record after each step; all record shapes built from field kinds up to the nesting bound, each copied by every mechanism; all '
         'accesses to undeclared fields and ill-typed field stores',
    assumptions=[])

PRE = ['TYPE E = (ea, eb, ec)', 'TYPE PI = ^INTEGER',
       'TYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', 'TYPE PR = ^R',
       'TYPE N\nDECLARE r : R\nDECLARE rs : ARRAY[0:1] OF R\nDECLARE k : INTEGER\nENDTYPE',
       'DECLARE x, y : R', 'DECLARE u, v : N', 'DECLARE ra, rb : ARRAY[1:2] OF R', 'DECLARE p : PR',
       'FUNCTION fr(z : R) RETURNS R\nz.n <- z.n + 1\nz.a[1] <- z.a[1] + 1\nRETURN z\nENDFUNCTION',
       'FUNCTION fg() RETURNS R\nRETURN x\nENDFUNCTION',
       'FUNCTION fn(z : N) RETURNS N\nz.r.a[2] <- 77\nz.rs[1].s <- "fn"\nz.k <- z.k + 1\nRETURN z\nENDFUNCTION',
       'FUNCTION fl(k : INTEGER) RETURNS R\nDECLARE l : R\nl.n <- k\nl.s <- "l"\nl.a[2] <- k + 1\nx <- l\nl.n <- 0\nRETURN l\nENDFUNCTION',
       'PROCEDURE pv(z : R)\nz.n <- 500\nz.s <- "pv"\nz.a[1] <- 501\nENDPROCEDURE',
       'PROCEDURE pr(BYREF z : R)\nz.n <- z.n + 20\nz.a[2] <- z.a[2] + 21\nENDPROCEDURE',
       'PROCEDURE sw(BYREF z : R, BYREF w : R)\nDECLARE t : R\nt <- z\nz <- w\nw <- t\nt.n <- 9\nENDPROCEDURE',
       'PROCEDURE nv(z : N, BYREF w : R)\nz.r <- w\nz.k <- 1\nw.n <- 321\nw.s <- z.r.s & "!"\nz.r.n <- 5\nENDPROCEDURE',
       'PROCEDURE vg(z : R)\nx.n <- 600\nx.a[1] <- 601\ny <- z\nENDPROCEDURE',
       'x.n <- 1', 'x.s <- "x"', 'x.a[1] <- 11', 'y.n <- 2', 'y.a[2] <- 22', 'u.r.n <- 3', 'u.rs[1].n <- 4', 'u.rs[0].a[2] <- 44', 'v.k <- 5', 'ra[1].n <- 6', 'ra[2].s <- "ra"', 'p <- ^y']


def rf(r):
    return ['%s.n' % r, '%s.s' % r, '%s.a[1]' % r, '%s.a[2]' % r]


ALL = sum((rf(r) for r in ['x', 'y', 'u.r', 'u.rs[0]', 'u.rs[1]', 'v.r', 'v.rs[0]', 'v.rs[1]', 'ra[1]', 'ra[2]', 'rb[1]', 'rb[2]']), []) + ['u.k', 'v.k']
DUMP = 'OUTPUT ' + ', ",", '.join(ALL)
OPS = ['x <- y', 'y <- x', 'u.r <- x', 'x <- u.r', 'u <- v', 'v <- u', 'u.rs[0] <- x', 'y <- u.rs[1]', 'v.rs[1] <- u.r', 'ra[1] <- x', 'x <- ra[2]', 'ra[2] <- ra[1]', 'rb <- ra', 'u.rs[1] <- v.rs[0]',
       'v.r <- ra[1]', 'x <- fr(y)', 'y <- fr(x)', 'x <- fr(x)', 'u <- fn(v)', 'v <- fn(v)', 'x <- fl(8)', 'y <- fg()', 'ra[1] <- fg()', 'CALL pv(x)', 'CALL pr(x)', 'CALL pr(u.rs[1])', 'CALL pr(ra[2])',
       'CALL sw(x, y)', 'CALL sw(u.r, ra[1])', 'CALL sw(u.rs[0], u.rs[1])', 'CALL nv(u, x)', 'CALL nv(u, u.r)', 'CALL vg(x)', 'CALL vg(y)', 'p^ <- x', 'x <- p^', 'p^.n <- 31', 'p <- ^u.rs[1]', 'p <- ^ra[1]',
       'x.n <- 101', 'x.a[1] <- 102', 'y.s <- "yy"', 'y.a[2] <- 103', 'u.r.n <- 104', 'u.r.a[1] <- 105', 'u.rs[1].a[2] <- 106', 'u.rs[0].s <- "u0"', 'v.rs[1].n <- 107', 'ra[1].a[2] <- 108', 'ra[2].n <- 109',
       'rb[1].s <- "rb"', 'x.a <- y.a', 'u.rs <- v.rs', 'u.rs <- ra', 'ra[1].a <- u.rs[1].a']


def history(ctx, ops):
    batch(ctx, PRE, [x for o in ops for x in (o, DUMP)], model_kw=dict(steps=60000))


def hfile(ctx, ops):
    """The same history as a file (no echo, no per-entry parse)."""
    ctx.diff('\n'.join(PRE) + '\n' + ''.join('%s\n%s\n' % (o, DUMP) for o in ops), model_kw=dict(steps=60000))


# ---- record shapes
FK = {'INTEGER': ('5', '6'), 'REAL': ('2.5', '3'), 'BOOLEAN': ('TRUE', 'FALSE'), 'CHAR': ("'c'", "'d'"), 'STRING': ('"ab"', '"cd"'), 'DATE': ('1/2/2000', '3/4/2001'), 'E': ('eb', 'ec'), 'PI': ('^k1', '^k2')}
SHDEF = ['TYPE E = (ea, eb, ec)', 'TYPE PI = ^INTEGER', 'DECLARE k1, k2 : INTEGER', 'k1 <- 41', 'k2 <- 42']


def leafs(fields, prefix):
    """Paths of the scalar leaves of a record with the given fields."""
    out = []
    for i, f in enumerate(fields):
        nm = '%sf%d' % (prefix, i)
        out += leaf(f, nm)
    return out


def leaf(f, nm):
    if isinstance(f, str):
        return [(nm, f)]
    if f[0] == 'arr':
        return [x for j in range(f[1][0], f[1][1] + 1) for x in leaf(f[2], '%s[%d]' % (nm, j))]
    return leafs(f[1], nm + '.')


def define(fields, name, defs):
    body = []
    for i, f in enumerate(fields):
        body.append('DECLARE f%d : %s' % (i, tname(f, name + str(i), defs)))
    defs.append('TYPE %s\n%s\nENDTYPE' % (name, '\n'.join(body)))


def tname(f, nm, defs):
    if isinstance(f, str):
        return f
    if f[0] == 'arr':
        return 'ARRAY[%d:%d] OF %s' % (f[1][0], f[1][1], tname(f[2], nm + 'x', defs))
    define(f[1], nm, defs)
    return nm


def shape(ctx, fields):
    defs = []
    define(fields, 'T', defs)
    ls = leafs(fields, '.')
    show = lambda v: ['OUTPUT ' + ', ",", '.join(v + p + ('^' if t == 'PI' else '') for p, t in ls if t != 'PI' or True)] if all(t != 'PI' for _, t in ls) else [v + p for p, t in ls]
    pre = SHDEF + defs + ['DECLARE a, b, c : T', 'DECLARE aa, ab : ARRAY[1:2] OF T', 'TYPE W\nDECLARE t : T\nDECLARE z : INTEGER\nENDTYPE', 'DECLARE w, w2 : W',
                          'TYPE PT = ^T', 'DECLARE p : PT', 'FUNCTION id(x : T) RETURNS T\nRETURN x\nENDFUNCTION',
                          'PROCEDURE wr(x : T)\n' + '\n'.join('x%s <- %s' % (q, FK[t][1]) for q, t in ls) + '\nENDPROCEDURE',
                          'PROCEDURE rd(BYREF x : T)\n' + '\n'.join('x%s <- %s' % (q, FK[t][1]) for q, t in ls[:1]) + '\nENDPROCEDURE',
                          'FUNCTION mk() RETURNS T\nDECLARE l : T\n' + '\n'.join('l%s <- %s' % (q, FK[t][0]) for q, t in ls) + '\nRETURN l\nENDFUNCTION']
    fill = lambda v, k: ['%s%s <- %s' % (v, q, FK[t][k]) for q, t in ls]
    obs = ['a', 'b', 'c', 'aa[1]', 'aa[2]', 'ab[1]', 'ab[2]', 'w.t', 'w2.t']
    e = show('a') + show('aa[1]') + show('w.t')
    e += fill('a', 0) + ['b <- a'] + fill('a', 1) + show('a') + show('b')
    e += ['c <- b'] + fill('c', 1) + show('b') + show('c')
    e += ['aa[1] <- b', 'aa[2] <- aa[1]'] + fill('aa[1]', 1) + show('aa[1]') + show('aa[2]') + show('b')
    e += ['ab <- aa'] + fill('ab[2]', 1) + show('aa[2]') + show('ab[2]') + show('ab[1]')
    e += ['w.t <- b', 'w2 <- w', 'w2.z <- 3'] + fill('w.t', 1) + show('w.t') + show('w2.t') + ['w.z', 'w2.z']
    e += ['CALL wr(b)'] + show('b') + ['c <- id(b)'] + show('c') + fill('b', 1) + show('c') + ['c <- mk()'] + show('c')
    e += ['CALL rd(c)'] + show('c') + ['p <- ^c', 'b <- p^'] + fill('b', 1) + show('c') + ['p^ <- aa[2]'] + show('c') + fill('c', 1) + show('aa[2]')
    # each leaf is independent of the others
    for q, t in ls:
        e += ['b <- mk()', 'b%s <- %s' % (q, FK[t][1])] + show('b')
    batch(ctx, pre, [e], model_kw=dict(steps=60000))


def shapes(tier):
    scal = list(FK)
    for f in scal:
        yield [f]
        yield ['INTEGER', f, 'STRING']
        yield [('arr', (1, 2), f)]
        yield ['INTEGER', ('arr', (0, 1), f), f]
        yield [('rec', [f])]
        yield [('rec', [f, 'INTEGER']), f]
        yield [('arr', (1, 2), ('rec', [f, 'STRING']))]
        yield [('rec', [('arr', (1, 2), f)])]
    for a, b in itertools.product(scal, repeat=2):
        yield [a, b]
        yield [a, ('rec', [b, a])]
        yield [('arr', (1, 2), a), ('arr', (2, 3), b)]
    comp = [('rec', ['INTEGER', 'STRING']), ('arr', (1, 2), 'INTEGER'), ('arr', (1, 2), ('rec', ['STRING'])), ('rec', [('arr', (0, 1), 'STRING'), 'CHAR']), ('rec', [('rec', ['INTEGER'])]),
            ('rec', [('rec', [('arr', (1, 2), 'REAL')]), 'BOOLEAN']), ('arr', (1, 2), ('rec', [('arr', (1, 2), 'INTEGER')])), 'INTEGER']
    for n in (2, 3):
        for c in itertools.product(comp, repeat=n):
            if n == 3 and tier == 'quick' and comp.index(c[2]) % 4:
                continue
            yield list(c)
    # many fields of one kind, and every kind at every position
    for f in scal:
        for n in (3, 4, 5, 8):
            yield [f] * n
            yield [('arr', (k, k + 1), f) for k in range(n)]
            yield [('rec', [f]) for k in range(n)]
            if n < 5:
                yield [('arr', (1, 2), ('rec', [f])) for k in range(n)]
                yield [('rec', [('arr', (0, 1), f)] * n)]
    kinds = [lambda k: scal[k % len(scal)], lambda k: ('arr', (k - 1, k), scal[k % 5]), lambda k: ('rec', [scal[k % 8], ('arr', (1, 1 + k % 3), 'INTEGER')])]
    for n in (4, 5) if tier == 'quick' else (4, 5, 6):
        for c in itertools.product(range(3), repeat=n):
            yield [kinds[j](k) for k, j in enumerate(c)]
    for n in range(1, 6):
        yield [('arr', (1, n), 'INTEGER'), ('arr', (1, n), ('arr', (1, 2), 'INTEGER'))][:1] + ['STRING'] * n + [('arr', (-1, n - 2), 'STRING')]


def accesses(tier):
    """Undeclared fields, fields of non-records, ill-typed field stores; all values dumped afterwards."""
    es = []
    objs = ['x', 'u.r', 'u.rs[1]', 'ra[1]', 'p^', 'v']
    for o in objs:
        for f in ('zz', 'N', 'nn', 'R', 'x', 'ea', 'r.zz', 'k', 'n.n', 's.n', 'a.n', 'a[1].n', 'a[3]', 'a[0]', 'rs', 'rs[2]', 'rs[0].zz', 'r', 'n[1]', 'n^', '_'):
            es.append(['%s.%s' % (o, f), '%s.%s <- 5' % (o, f), '%s.%s <- "t"' % (o, f), 'INPUT %s.%s' % (o, f), '12', DUMP])
    for o in ('nosuch', 'p', 'E', 'R', 'ea', 'ra', 'u.k', 'x.s', 'PRE', '5', '"s"', 'fg()', 'fr'):
        es.append(['%s.n' % o, '%s.n <- 5' % o, DUMP])
    for t in ('x.n', 'x.s', 'x.a[1]', 'x.a', 'u.r', 'u.rs[0]', 'u.rs', 'ra[2]', 'x', 'u', 'ra', 'u.k'):
        for v in ('5', '2.5', '"s"', "'c'", 'TRUE', '1/1/2000', 'eb', 'x', 'u', 'ra', 'ra[1]', 'x.a', 'u.rs', 'p', 'p^', 'x.n', 'x.s', 'nosuch', 'u.zz', 'fg()', 'fn(u)', '1 / 0', 'R'):
            es.append(['%s <- %s' % (t, v), DUMP])
    for s in ('OUTPUT x', 'OUTPUT u.r', 'x = y', 'x <> x', 'x + 1', 'x & "a"', 'NOT x', '-x', 'x < y', 'CALL pv(5)', 'CALL pv(u)', 'CALL pv(u.rs)', 'CALL pr(5)', 'CALL pr(fg())', 'fr(u)', 'LENGTH(x)', 'STRING(x)', 'x', 'u.r', 'ra[1]',
              'x[1]', 'x^', 'p.n', 'CONSTANT cc = x', 'cc.n', 'cc.n <- 5', 'cc.n', 'x.n <- 5', 'cc.n', 'nn <- x', 'nn.n', 'nn.n <- 66', 'x.n', 'x.a[1] <- 3', 'nn.a[1]'):
        es.append([s, DUMP])
    yield from batches(PRE, es, 12, **dict(model_kw=dict(steps=60000)))


def same_names(tier):
    """Types are told apart by definition, not by name or shape; locals of several activations."""
    for a, b in itertools.product(('DECLARE n : INTEGER', 'DECLARE n : INTEGER\nDECLARE m : INTEGER', 'DECLARE n : REAL', 'DECLARE m : INTEGER'), repeat=2):
        pre = 'TYPE A\n%s\nENDTYPE\nTYPE B\n%s\nENDTYPE\nDECLARE a : A\nDECLARE b : B\n' % (a, b)
        for s in ('a <- b', 'b <- a', 'a <- a', 'CALL q(b)', 'CALL q(a)'):
            yield pre + 'PROCEDURE q(z : A)\nOUTPUT "q"\nENDPROCEDURE\nOUTPUT "s"\n%s\nOUTPUT "e"\n' % s
        yield 'TYPE A\n%s\nENDTYPE\nDECLARE g : A\nPROCEDURE q()\nTYPE A\n%s\nENDTYPE\nDECLARE l : A\nOUTPUT "d"\ng <- l\nOUTPUT "e"\nENDPROCEDURE\nCALL q\n' % (a, b)
        yield 'TYPE A\n%s\nENDTYPE\nDECLARE g : A\nPROCEDURE q()\nTYPE A\n%s\nENDTYPE\nDECLARE l, m : A\nOUTPUT "d"\nl <- m\nOUTPUT l.m\nENDPROCEDURE\nCALL q\nCALL q\n' % (a, b)
    for n in range(1, 5):
        yield ('TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:3] OF INTEGER\nENDTYPE\nFUNCTION build(k : INTEGER, r : R) RETURNS R\nr.n <- r.n + k\nr.a[1 + k MOD 3] <- k\nIF k > 0 THEN\nDECLARE t : R\nt <- build(k - 1, r)\n'
               'OUTPUT k, " ", r.n, " ", r.a[1], r.a[2], r.a[3], " ", t.n, " ", t.a[1], t.a[2], t.a[3]\nRETURN t\nENDIF\nRETURN r\nENDFUNCTION\nDECLARE z, w : R\nz.n <- 1\nw <- build(%d, z)\nOUTPUT z.n, z.a[1], z.a[2], z.a[3], " ", w.n, w.a[1], w.a[2], '
               'w.a[3]\n' % n)
        yield ('TYPE R\nDECLARE n : INTEGER\nENDTYPE\nTYPE C\nDECLARE r : ARRAY[1:%d] OF R\nDECLARE z : R\nENDTYPE\nDECLARE c, d : C\nFOR i <- 1 TO %d\nc.r[i].n <- i * 10\nd <- c\nc.z <- d.r[i]\nd.r[1].n <- d.r[1].n + 1\nOUTPUT c.r[1].n, " ", d.r[1].n, " ", '
               'd.r[i].n, " ", c.z.n\nNEXT i\n' % (n, n))
    # default values of fresh records in each activation and in arrays
    for ctx in ('PROCEDURE q()\nDECLARE l : R\nOUTPUT l.n, l.s, l.a[1], l.e, l.b, l.x\nl.n <- 5\nl.s <- "s"\nl.a[1] <- 6\nl.e <- eb\nl.b <- TRUE\nl.x <- 1.5\nENDPROCEDURE\nCALL q\nCALL q\n',
                'FUNCTION q() RETURNS R\nDECLARE l : R\nRETURN l\nENDFUNCTION\nDECLARE m : R\nm.n <- 9\nm.a[1] <- 9\nm <- q()\nOUTPUT m.n, m.s, m.a[1], m.e, m.b, m.x\n',
                'DECLARE l : ARRAY[1:2] OF R\nOUTPUT l[2].n, l[2].s, l[2].a[1], l[2].e, l[2].b, l[2].x\nl[1].n <- 4\nl[1].e <- eb\nOUTPUT l[2].n, l[2].e\n'):
        yield 'TYPE E = (ea, eb)\nTYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF INTEGER\nDECLARE e : E\nDECLARE b : BOOLEAN\nDECLARE x : REAL\nENDTYPE\n' + ctx


def cases(tier):
    yield from scale.cases(tier, 'C07')
    yield from transport.cases(tier, 'C07')
    yield from rerun.cases(tier, 'C07')
    yield from merge.cases(tier, 'C07')
    for s in names.cases(tier, 'C07'):
        yield (prog, s)
    for s in paths.cells(tier):
        yield (prog, s)
    for s in same_names(tier):
        yield (prog, s)
    yield from accesses(tier)
    for f in shapes(tier):
        yield (shape, f)
    for n in range(1, 3 if tier == 'quick' else 4):
        for ops in itertools.product(OPS, repeat=n):
            yield (history if n < 3 and sum(map(len, ops)) % 4 == 0 else hfile, ops)
    if tier == 'quick':
        copies = OPS[:15] + OPS[22:23] + OPS[28:30] + OPS[34:36]
        writes = OPS[39:51]
        for a, b in itertools.product(copies, repeat=2):
            for w in writes[::2]:
                yield (hfile, (a, b, w))
