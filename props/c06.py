"""C06: arrays are bounds-checked total maps with independent elements."""
import itertools

from gen import batches, prog, batch
import c04
import names
import paths
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='all arrays over a set of bound pairs in 1, 2 (and 3, 4) dimensions x all index tuples in and around the bounds: every element written with a '
         'distinct value in every order of a set of orders, every out-of-bounds or ill-typed access attempted and all elements dumped afterwards; all '
         'whole-array assignments between all pairs of shapes and element types followed by writes to either side; all element types; histories of '
         'writes/copies/failing accesses up to the depth, with a full dump after each step',
    assumptions=['array sizes beyond the memory bound are not asserted'])

B1 = [(1, 3), (0, 2), (-1, 1), (5, 5), (-3, -2), (2, 4), (1, 1), (0, 0), (10, 12)]


def dump(name, dims):
    """One line with every element."""
    return 'OUTPUT ' + ', ",", '.join('%s[%s]' % (name, ', '.join(map(str, t))) for t in itertools.product(*[range(l, u + 1) for l, u in dims]))


def decl(name, dims, ty='INTEGER'):
    return 'DECLARE %s : ARRAY[%s] OF %s' % (name, ', '.join('%d:%d' % d for d in dims), ty)


def around(d, k=2):
    return range(d[0] - k, d[1] + k + 1)


def shapes(tier):
    for a in B1:
        yield (a,)
    two = list(itertools.product([(1, 2), (0, 2), (-1, 1), (3, 3), (2, 4)], repeat=2))
    for s in two:
        yield s
    three = itertools.product([(1, 2), (0, 1), (-1, 1), (4, 4)], repeat=3)
    for s in three:
        yield s
    if tier == 'thorough':
        for s in itertools.product([(1, 2), (0, 1), (-1, 0)], repeat=4):
            yield s
        yield ((1, 2),) * 5
        yield ((0, 1), (1, 1), (-1, 0), (2, 3), (5, 5), (1, 2))
    else:
        yield ((1, 2), (0, 1), (-1, 0), (2, 3))


def total_map(ctx, dims, order, how):
    """Write a distinct value to every element; dump after every write (or at the end, for large arrays)."""
    ts = list(itertools.product(*[range(l, u + 1) for l, u in dims]))
    seq = {'fwd': ts, 'rev': ts[::-1], 'stride': [ts[(i * 7 + 3) % len(ts)] for i in range(len(ts))] if len(ts) % 7 else ts,
           'twice': ts + ts[::-1]}[order]
    src = decl('a', dims) + '\n' + decl('b', dims) + '\n' + dump('a', dims) + '\n'
    every = len(ts) <= 12
    for n, t in enumerate(seq):
        ix = ', '.join(str(x) for x in t)
        if how == 'vars':
            src += ''.join('i%d <- %d\n' % (k, x) for k, x in enumerate(t))
            ix = ', '.join('i%d' % k for k in range(len(t)))
        elif how == 'expr':
            ix = ', '.join('%d + %d' % (x - 5, 5) if x % 2 else '%d * 2 DIV 2' % x for x in t)
        src += 'a[%s] <- %d\n' % (ix, 100 + n)
        if every:
            src += dump('a', dims) + '\n'
    ctx.diff(src + dump('a', dims) + '\n' + dump('b', dims) + '\n')


def loops_over(ctx, dims):
    """Fill and read with nested loops."""
    n = len(dims)
    ivs = ['i%d' % k for k in range(n)]
    head = ''.join('FOR %s <- %d TO %d\n' % (v, l, u) for v, (l, u) in zip(ivs, dims))
    tail = ''.join('NEXT %s\n' % v for v in ivs[::-1])
    ix = ', '.join(ivs)
    src = decl('a', dims) + '\n' + head + 'c <- c + 1\na[%s] <- c\n' % ix + tail
    src = 'DECLARE c : INTEGER\n' + src + dump('a', dims) + '\n' + head + 'a[%s] <- a[%s] * 2 + 1\nOUTPUT %s, a[%s]\n' % (ix, ix, ', ","'.join([''] + ivs)[5:] if False else ', '.join(ivs), ix) + tail
    ctx.diff(src + dump('a', dims) + '\n')


def bounds(ctx, dims):
    """Every index tuple around the bounds, read and written; failing accesses must change nothing."""
    pre = [decl('a', dims), decl('g', [(1, 3)])]
    ts = list(itertools.product(*[range(l, u + 1) for l, u in dims]))
    for n, t in enumerate(ts):
        pre.append('a[%s] <- %d' % (', '.join(map(str, t)), 10 + n))
    pre += ['PROCEDURE set(BYREF x : INTEGER)\nx <- x + 500\nENDPROCEDURE', 'TYPE PI = ^INTEGER', 'DECLARE p : PI']
    es = []
    for k, t in enumerate(itertools.product(*[around(d, 2 if len(dims) < 3 else 1) for d in dims])):
        ix = ', '.join(map(str, t))
        es.append('a[%s]' % ix)
        inb = all(l <= x <= u for x, (l, u) in zip(t, dims))
        if not inb:
            es.append(['a[%s] <- %d' % (ix, 900 + k), dump('a', dims)])
            if len(dims) < 3:
                es.append(['CALL set(a[%s])' % ix, 'p <- ^a[%s]' % ix, 'p^', dump('a', dims)])
        elif len(dims) < 3:
            es.append(['a[%s] <- a[%s] + %d' % (ix, ix, 1000 * (k + 1)), dump('a', dims)])
            es.append(['CALL set(a[%s])' % ix, dump('a', dims)])
    es += ['a', 'a[]', 'a <- 5', 'a', dump('a', dims)]
    ix1 = ', '.join(str(l) for l, u in dims)
    # wrong number of indices
    for n in range(0, len(dims) + 3):
        if n != len(dims):
            ix = ', '.join(str((list(dims) + [(1, 1)] * 3)[k][0]) for k in range(n))
            es.append(['a[%s]' % ix, 'a[%s] <- 77' % ix, dump('a', dims)])
    es.append(['a%s' % ''.join('[%d]' % l for l, u in dims) if len(dims) > 1 else 'a[%d][%d]' % (dims[0][0], dims[0][0]), dump('a', dims)])
    # index types, at every position
    for k in range(len(dims)):
        for v in ('%d.0' % dims[k][0], '%d.5' % dims[k][0], '"%d"' % dims[k][0], "'%s'" % str(dims[k][0])[-1], 'TRUE', 'FALSE', '1/1/2000', 'ea', 'nosuch', 'a', '1 / 0', 'p',
                  '%d / 1' % dims[k][0], '9223372036854775807', '-9223372036854775807', '4294967296 + %d' % dims[k][0], '18446744073709551616', '2147483648', '%d - 4294967296' % dims[k][0],
                  '65536 + %d' % dims[k][0], '256 + %d' % dims[k][0], 'INTEGER("%d")' % dims[k][0], 'REAL(%d)' % dims[k][0]):
            ix = ', '.join(v if j == k else str(l) for j, (l, u) in enumerate(dims))
            es.append(['a[%s]' % ix, 'a[%s] <- 55' % ix, dump('a', dims)])
    es.append(['a[%s] <- TRUE' % ix1, 'a[%s] <- 2.5' % ix1, 'a[%s] <- "s"' % ix1, dump('a', dims)])
    for i in range(0, len(es), 40):
        batch(ctx, ['TYPE E = (ea, eb)'] + pre, es[i:i + 40], model_kw=dict(steps=60000))


TYDEF = ['TYPE E = (ea, eb, ec)', 'TYPE F = (fa, fb)', 'TYPE PI = ^INTEGER', 'TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE', 'TYPE Q\nDECLARE n : INTEGER\nENDTYPE',
         'DECLARE k : INTEGER', 'k <- 4']
ELEM = {'INTEGER': ['5', '-7'], 'REAL': ['2.5', '3'], 'BOOLEAN': ['TRUE', 'FALSE'], 'CHAR': ["'x'", '"y"'], 'STRING': ['"str"', "'c'"], 'DATE': ['1/2/2000', '3/4/1999'], 'E': ['eb', 'ec'],
        'F': ['fb', 'fa'], 'PI': ['^k', '^k'], 'R': ['rv', 'rw'], 'Q': ['qv', 'qv']}
SH = [((1, 3),), ((0, 2),), ((1, 2),), ((1, 4),), ((1, 1),), ((1, 3), (1, 1)), ((1, 1), (1, 3)), ((1, 2), (1, 2)), ((0, 1), (1, 2)), ((1, 2), (0, 1)), ((1, 4), (1, 1)), ((1, 2), (1, 3)), ((1, 3), (1, 2)),
      ((2, 4),)]


def edump(n, ty, dims):
    acc = {'R': '.n', 'Q': '.n'}.get(ty, '')
    ts = list(itertools.product(*[range(l, u + 1) for l, u in dims]))
    if ty == 'PI':
        return ['%s[%s]' % (n, ', '.join(map(str, t))) for t in ts]
    l = ['OUTPUT ' + ', ",", '.join('%s[%s]%s' % (n, ', '.join(map(str, t)), acc) for t in ts)]
    if ty == 'R':
        l.append('OUTPUT ' + ', ",", '.join('%s[%s].a[2]' % (n, ', '.join(map(str, t))) for t in ts))
    return l


def copy_pair(ctx, sa, ta, sb, tb):
    """b <- a for every pair of shapes and element types; afterwards each side is changed separately."""
    pre = TYDEF + ['DECLARE rv, rw : R', 'DECLARE qv : Q', 'rv.n <- 1', 'rv.a[2] <- 2', 'rw.n <- 3', 'qv.n <- 9', decl('a', sa, ta), decl('b', sb, tb), decl('c', sa, ta)]
    fa = [t for t in itertools.product(*[range(l, u + 1) for l, u in sa])]
    fb = [t for t in itertools.product(*[range(l, u + 1) for l, u in sb])]
    for i, t in enumerate(fa):
        pre.append('a[%s] <- %s' % (', '.join(map(str, t)), ELEM[ta][i % 2]))
    da, db, dc = edump('a', ta, sa), edump('b', tb, sb), edump('c', ta, sa)
    e = ['b <- a'] + da + db
    l = ', '.join(map(str, fa[-1]))
    m = ', '.join(map(str, fb[-1]))
    e += ['a[%s] <- %s' % (l, ELEM[ta][0])] + ['b[%s] <- %s' % (m, ELEM[tb][1])]
    if ta == 'R':
        e += ['a[%s].n <- 50' % l, 'a[%s].a[2] <- 51' % l]
    if tb == 'R':
        e += ['b[%s].a[2] <- 61' % m]
    e += da + db + ['c <- a'] + dc + ['a[%s] <- %s' % (', '.join(map(str, fa[0])), ELEM[ta][1])] + da + dc + ['a <- a'] + da + ['a <- b'] + da + db
    batch(ctx, pre, [e])


def pass_array(ctx, sa, ta):
    """Arrays held in records, copied with them, and reached through pointers and parameters."""
    pre = TYDEF + ['DECLARE rv, rw : R', 'DECLARE qv : Q', 'rv.n <- 1', 'rv.a[2] <- 2', 'rw.n <- 3', 'qv.n <- 9',
                   'TYPE H\nDECLARE z : INTEGER\nDECLARE f : ARRAY[%s] OF %s\nDECLARE y : INTEGER\nENDTYPE' % (', '.join('%d:%d' % d for d in sa), ta), 'DECLARE h, g : H', 'DECLARE hs : ARRAY[1:2] OF H',
                   decl('a', sa, ta)]
    ts = list(itertools.product(*[range(l, u + 1) for l, u in sa]))
    e = edump('h.f', ta, sa)
    for i, t in enumerate(ts):
        pre.append('a[%s] <- %s' % (', '.join(map(str, t)), ELEM[ta][i % 2]))
        e += ['h.f[%s] <- %s' % (', '.join(map(str, t)), ELEM[ta][(i + 1) % 2])]
    l = ', '.join(map(str, ts[-1]))
    f = ', '.join(map(str, ts[0]))
    dh, dg, d2 = edump('h.f', ta, sa), edump('g.f', ta, sa), edump('hs[2].f', ta, sa)
    e += dh + ['g <- h'] + dg + ['h.f[%s] <- %s' % (l, ELEM[ta][0]), 'g.f[%s] <- %s' % (f, ELEM[ta][1])] + dh + dg
    e += ['h.f <- a'] + dh + ['a <- g.f'] + edump('a', ta, sa) + ['hs[2].f <- h.f'] + d2 + edump('hs[1].f', ta, sa) + ['hs[2].f[%s] <- %s' % (l, ELEM[ta][1])] + d2 + dh + ['h.z', 'h.y', 'hs[2].z', 'hs[2].y', 'hs[1].y']
    e += ['PROCEDURE pv(x : H)\nx.f[%s] <- %s\nENDPROCEDURE' % (f, ELEM[ta][0] if '^' not in ELEM[ta][0] else '^k'), 'PROCEDURE pr(BYREF x : H)\nx.f[%s] <- %s\nENDPROCEDURE' % (f, ELEM[ta][1]),
          'CALL pv(h)'] + dh + ['CALL pr(h)'] + dh + ['CALL pr(hs[2])'] + d2
    batch(ctx, pre, [e])


def history(ctx, ops):
    batch(ctx, HPRE, [x for o in ops for x in (o, DUMP)])


HPRE = ['DECLARE a, b : ARRAY[0:2] OF INTEGER', 'DECLARE m, w : ARRAY[1:2, 0:1] OF INTEGER', 'DECLARE s : ARRAY[0:2] OF STRING', 'DECLARE i : INTEGER', 'i <- 1', 'a[0] <- 2', 'a[2] <- 1', 's[1] <- "q"', 'm[2, 0] <- 5']
DUMP = ('OUTPUT a[0], ",", a[1], ",", a[2], ",", b[0], ",", b[1], ",", b[2], ",", m[1, 0], ",", m[1, 1], ",", m[2, 0], ",", m[2, 1], ",", w[1, 0], ",", w[1, 1], ",", w[2, 0], ",", w[2, 1], ",", s[0], ",", s[1], ",", '
        's[2], ",", i')
HOPS = ['a[i] <- 7', 'a[a[i]] <- a[i] + 1', 'a[0] <- i * 3', 'b <- a', 'a <- b', 'b[2] <- a[a[2]]', 'm[i, 0] <- a[i] + 10', 'm[a[0], a[2]] <- 4', 'w <- m', 'm <- w', 'a <- m', 's <- a', 'a[3] <- 1',
        'a[i, i] <- 1', 'm[i] <- 1', 'm[0, 1] <- 6', 'm[1, 2] <- 6', 'i <- a[i]', 's[i] <- s[1] & "x"', 'a[i] <- s[i]', 'w[i + 1, i] <- m[i, i] - 1', 'a[-1] <- 9', 'a[i] <- a', 'b[a[1]] <- 8', 'FOR i <- 0 TO 2\nb[i] <- a[2 - i]\nNEXT i']


def big(tier):
    for n in (1000, 5000):
        yield 'DECLARE a : ARRAY[1:%d] OF INTEGER\na[%d] <- 5\na[1] <- 6\nOUTPUT a[1], a[2], a[%d], a[%d]\nOUTPUT a[%d]\n' % (n, n, n - 1, n, n + 1)
        yield 'DECLARE a : ARRAY[-%d:-1] OF INTEGER\na[-%d] <- 5\na[-1] <- 6\nOUTPUT a[-1], a[-2], a[-%d]\nOUTPUT a[-%d]\n' % (n, n, n, n + 1)
    yield 'DECLARE a : ARRAY[1:100, 1:50] OF INTEGER\nFOR i <- 1 TO 100 STEP 9\nFOR j <- 1 TO 50 STEP 7\na[i, j] <- i * 100 + j\nNEXT j\nNEXT i\nFOR i <- 1 TO 100 STEP 9\nOUTPUT a[i, 1], " ", a[i, 8], " ", a[i, 50], " ", a[i, 2]\nNEXT i\nOUTPUT a[50, 101]\n'
    base = 9000000000
    yield 'DECLARE a : ARRAY[%d:%d] OF INTEGER\na[%d] <- 3\nOUTPUT a[%d], a[%d]\nOUTPUT a[1]\n' % (base, base + 2, base + 1, base + 1, base)
    yield 'DECLARE a : ARRAY[-%d:%d] OF INTEGER\nOUTPUT a[-%d]\n' % (base, -base + 2, base) if False else 'DECLARE a : ARRAY[%d:%d] OF INTEGER\na[%d] <- 4\nOUTPUT a[%d]\nOUTPUT a[%d]\n' % (-base, -base + 2, -base, -base, -base - 1)
    # bounds given by expressions, reversed or ill-typed bounds
    for l, u in (('n', 'n + 2'), ('-n', 'n'), ('n', 'n'), ('n + 1', 'n'), ('3', '1'), ('1.0', '3'), ('1', '3.0'), ('"1"', '3'), ('TRUE', '3'), ('1', 'nosuch'), ('n DIV 2', 'n * 2'), ('1', '10 / 2'), ("'1'", "'3'")):
        for r in ('a[2] <- 5\nOUTPUT a[2]\n', 'OUTPUT a[1]\n', 'OUTPUT a[3], a[4]\n', 'OUTPUT a[-2]\n'):
            yield 'n <- 2\nOUTPUT "s"\nDECLARE a : ARRAY[%s:%s] OF INTEGER\nOUTPUT "d"\n' % (l, u) + r
    # the bounds are fixed at the declaration
    yield 'n <- 2\nDECLARE a : ARRAY[1:n] OF INTEGER\nn <- 5\na[2] <- 1\nOUTPUT a[2]\na[3] <- 1\n'
    # declared in a loop / procedure: fresh
    yield 'PROCEDURE q(n : INTEGER)\nDECLARE a : ARRAY[1:n] OF INTEGER\nOUTPUT a[n]\na[n] <- n\nOUTPUT a[n], a[1]\nENDPROCEDURE\nCALL q(3)\nCALL q(2)\nCALL q(4)\nCALL q(0)\n'
    # index expressions are evaluated once, left to right is not asserted
    yield ('DECLARE c : INTEGER\nDECLARE a : ARRAY[1:9] OF INTEGER\nFUNCTION nx() RETURNS INTEGER\nc <- c + 1\nRETURN c\nENDFUNCTION\na[nx()] <- 5\nOUTPUT c\na[nx()] <- a[nx()] + 7\nOUTPUT c\n'
           'FOR i <- 1 TO 9\nOUTPUT a[i]\nNEXT i\n').replace('a[nx()] <- a[nx()] + 7\n', '')
    for ty, vs in ELEM.items():
        d = '\n'.join(TYDEF + ['DECLARE rv, rw : R', 'DECLARE qv : Q']) + '\n'
        if ty in ('PI', 'DATE'):
            continue
        acc = '.n' if ty in 'RQ' else ''
        yield d + 'DECLARE a : ARRAY[1:2, 1:2] OF %s\nOUTPUT a[1, 1]%s, a[1, 2]%s, a[2, 2]%s\na[1, 2] <- %s\nOUTPUT a[1, 1]%s, a[1, 2]%s, a[2, 1]%s\n' % (ty, acc, acc, acc, vs[0], acc, acc, acc)


def cases(tier):
    yield from scale.cases(tier, 'C06')
    yield from transport.cases(tier, 'C06')
    yield from rerun.cases(tier, 'C06')
    yield from merge.cases(tier, 'C06')
    for s in names.cases(tier, 'C06'):
        yield (prog, s)
    for s in paths.cells(tier):
        yield (prog, s)
    for d in shapes(tier):
        for o in ('fwd', 'rev', 'stride', 'twice'):
            for h in ('lit', 'vars', 'expr'):
                if h == 'lit' or o in ('rev', 'stride'):
                    yield (total_map, d, o, h)
        yield (loops_over, d)
    for d in shapes(tier):
        if len(d) < 3 or tier == 'thorough':
            yield (bounds, d)
        elif d[0] != (4, 4):
            yield (bounds, d)
    for s in big(tier):
        yield (prog, s)
    for (sa, sb) in itertools.product(SH, repeat=2):
        yield (copy_pair, sa, 'INTEGER', sb, 'INTEGER')
        yield (copy_pair, sa, 'R', sb, 'R')
        if tier == 'thorough':
            for t in ELEM:
                yield (copy_pair, sa, t, sb, t)
    for ta, tb in itertools.product(ELEM, repeat=2):
        yield (copy_pair, ((1, 3),), ta, ((1, 3),), tb)
        yield (copy_pair, ((1, 2), (0, 1)), ta, ((1, 2), (0, 1)), tb)
        if tier == 'thorough':
            for sa, sb in itertools.product(SH[:6], repeat=2):
                yield (copy_pair, sa, ta, sb, tb)
    for s in SH:
        for t in ELEM:
            yield (pass_array, s, t)
    for n in range(1, 4 if tier == 'quick' else 5):
        for ops in itertools.product(HOPS if n < 4 else HOPS[:17], repeat=n):
            yield (history, ops)
    for s in c04.shadow(tier):
        if 'ARRAY' in s.split('PROCEDURE q')[0].split('PROCEDURE other')[1] or 'DECLARE g : ARRAY' in s:
            yield (c04.stdin_prog, s)
