"""C02: expressions evaluate to the documented value and type.

Every expression is evaluated by the real interpreter (typed at the REPL, whose echo shows value and
type; and by OUTPUT in a file) and by the reference evaluator."""
import itertools

from gen import batches, chunks
import rerun
import scale
import transport

INFO = dict(
    rule='all binary operators x all ordered pairs of boundary operands of all types (literals, variables, casts); all operator '
         'chains up to the bound over small typed operand sets, with every placement of unary minus, NOT and parentheses; '
         'each expression evaluated at the REPL and through OUTPUT in a file',
    assumptions=['the sign convention of DIV/MOD on negative operands is left open beyond a=(a DIV b)*b+(a MOD b), |a MOD b|<|b|',
                 'INTEGER overflow is not asserted'])

OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR']
NUMOPS = ['+', '-', '*', '/', 'DIV', 'MOD']
CMP = ['=', '<>', '<', '<=', '>', '>=']

PRE = ['TYPE E = (ea, eb, ec)', 'TYPE PI = ^INTEGER', 'TYPE R\nDECLARE n : INTEGER\nENDTYPE',
       'DECLARE vi, vj : INTEGER', 'DECLARE vr : REAL', 'DECLARE vb : BOOLEAN', 'DECLARE vc : CHAR', 'DECLARE vs : STRING',
       'DECLARE vd : DATE', 'DECLARE ve : E', 'DECLARE vp : PI', 'DECLARE vq : R', 'DECLARE va : ARRAY[1:2] OF INTEGER',
       'vi <- 17', 'vj <- -5', 'vr <- 2.5', 'vb <- TRUE', "vc <- 'c'", 'vs <- "str"', 'vd <- 1/2/2000', 've <- eb', 'vp <- ^vi',
       'va[2] <- 9', 'DECLARE vz, vy : STRING', 'vz <- "x" & CHR(0) & "y"', 'vy <- "x" & CHR(0) & "z"', 'DECLARE vh : STRING', 'vh <- "x" & CHR(233)',
       'FUNCTION fi(x : INTEGER) RETURNS INTEGER\nRETURN x * 2\nENDFUNCTION',
       'FUNCTION fs(x : STRING) RETURNS STRING\nRETURN x & "!"\nENDFUNCTION']

INTS = [0, 1, -1, 2, -2, 3, 7, -7, 10, 100, 255, -256, 2**31 - 1, -2**31, 2**31, 2**32 + 1, 2**53, 2**53 + 1, -(2**53) - 1, 2**62,
        9007199254740993, 999999999999999999, 2**63 - 1, -(2**63 - 1)]
REALS = ['0.0', '1.0', '0.5', '2.5', '3.0', '0.1', '0.2', '100.25', '1000000000.0', '123456789.125', '0.000001', '9007199254740992.0',
         '10000000000000000000000.0']
OTHER = ['TRUE', 'FALSE', "'a'", "'b'", "'A'", "'0'", "'\\n'", '""', '"a"', '"b"', '"ab"', '"aB"', '"A"', '"5"', '"a "', '1/2/2000',
         '2/2/2000', '1/3/2000', '1/1/2001', 'ea', 'eb', 'ec', 'vp', 'vq', 'va', 've', 'vi', 'vj', 'vr', 'vb', 'vc', 'vs', 'vd', 'va[2]',
         'vq.n', 'vp^', 'fi(3)', 'fs("x")', 'INTEGER("12")', 'REAL("1.5")', 'STRING(12)', 'CHAR("x")', 'BOOLEAN(1)', 'LENGTH(vs)', 'zzz',
         "'a' & 'b'", 'vs & vc', 'vz', 'vy', '"x"', 'vh', 'CHR(0)', 'CHR(200)', '"x" & CHR(0)', 'LEFT(vz, 2)', '(vz & vy)', "'x'"]


def lit(i):
    return '%d' % i if i >= 0 else '(-%d)' % -i


IMAX, IMIN = 2**63 - 1, -2**63


def overflow(op, a, b):
    r = {'+': a + b, '-': a - b, '*': a * b}.get(op, 0)
    return not IMIN <= r <= IMAX


def pairs(tier):
    vals = [(i, lit(i)) for i in INTS] + [(None, r) for r in REALS] + [(None, '-' + r) for r in REALS[1:4]] + [(None, o) for o in OTHER]
    if tier == 'thorough':
        more = [4, 5, 9, 64, 99, 1000, 4096, 65535, 65536, 2**24, 2**24 + 1, 2**31 + 1, 2**52 + 1, 2**54 + 2, 10**15, 10**18, -10**18, -3, -10]
        vals += [(i, lit(i)) for i in more]
        vals += [(None, r) for r in ('3.75', '0.3', '1.1', '2.2', '3.3', '0.0001', '99999.5', '4294967296.5', '1.000001', '33.0')]
    for (a, x), op, (b, y) in itertools.product(vals, OPS, vals):
        if a is not None and b is not None and overflow(op, a, b):
            continue
        yield '%s %s %s' % (x, op, y)


def unary(tier):
    for v in [lit(i) for i in INTS] + REALS + OTHER:
        for u in ('-', '- ', 'NOT ', 'NOT -', '-(', '- -', 'NOT NOT ', 'NOT(', '(', '((', '-(-'):
            n = u.count('(')
            yield '%s%s%s' % (u, v, ')' * n)
    for f in ('MOD', 'DIV'):
        for a in INTS[:12] + [2**53 + 1]:
            for b in (0, 1, -1, 2, 3, -3, 7, 10, 2**31):
                yield '%s(%s, %s)' % (f, lit(a), lit(b))
                yield '1 + %s(%s, %s) * 2' % (f, lit(a), lit(b))
        for a in ('7.5', 'vr', '"a"', 'TRUE', 'ea', "'x'"):
            for b in ('2', '2.0', '0', '0.0', 'vr', '"b"', 'FALSE', 'eb'):
                yield '%s(%s, %s)' % (f, a, b)
                yield '%s(%s, %s)' % (f, b, a)


def chains(n, operands, ops=OPS):
    for o in itertools.product(ops, repeat=n):
        for v in itertools.product(operands, repeat=n + 1):
            s = v[0]
            for p, q in zip(o, v[1:]):
                s += ' ' + p + ' ' + q
            yield s


def decorated(n, operands, ops, deco):
    """Chains with every placement of the prefixes in deco before operands."""
    for o in itertools.product(ops, repeat=n):
        for d in itertools.product(deco, repeat=n + 1):
            for v in operands:
                s = d[0] + v[0]
                for p, q, e in zip(o, v[1:], d[1:]):
                    s += ' ' + p + ' ' + e + q
                yield s


def trees(vals):
    """Every complete parenthesisation of a chain, as format over operator slots."""
    if len(vals) == 1:
        yield [vals[0]]
        return
    for k in range(1, len(vals)):
        for a in trees(vals[:k]):
            for b in trees(vals[k:]):
                yield ['('] + a + [None] + b + [')']


def parenthesised(n, valsets, ops):
    for vals in valsets:
        ts = list(trees(list(vals)))
        for o in itertools.product(ops, repeat=n):
            for t in ts:
                it = iter(o)
                yield ' '.join(next(it) if x is None else x for x in t)


def partial_parens(n, valsets, ops):
    """One parenthesised sub-chain."""
    for vals in valsets:
        for o in itertools.product(ops, repeat=n):
            for i in range(n + 1):
                for j in range(i + 1, n + 1):
                    if i == 0 and j == n:
                        continue
                    s = []
                    for k in range(n + 1):
                        if k:
                            s.append(o[k - 1])
                        s.append(('(' if k == i else '') + vals[k] + (')' if k == j else ''))
                    yield ' '.join(s)


def exprs(tier):
    yield from unary(tier)
    yield from pairs(tier)
    yield from chains(2, ['7', '2', '2.5', 'TRUE', '"a"', "'b'"])
    yield from chains(3, ['7', '2', 'TRUE'])
    yield from chains(4, ['7'], NUMOPS + ['=', '<', 'AND'])
    yield from decorated(2, [('7', '2', '3'), ('TRUE', '2', '3'), ('7', '2', 'TRUE'), ('TRUE', 'FALSE', 'TRUE'), ('2.5', '2', '1.5')],
                         OPS, ('', '-', 'NOT '))
    yield from parenthesised(3, [('17', '5', '3', '2'), ('TRUE', '5', '3', 'FALSE')], OPS)
    yield from partial_parens(3, [('17', '5', '3', '2')], OPS)
    yield from parenthesised(4, [('17', '5', '3', '2', '7')], ['+', '-', '*', 'DIV', 'MOD'])
    yield from chains(5, ['9'], ['+', '-', '*', 'DIV', 'MOD'])
    yield from chains(4, ['5', '2.0'], ['+', '-', '*', '/'])
    yield from chains(3, ['vi', 'vj', '3'], NUMOPS)
    yield from chains(3, ['"a"', '"b"'], ['&', '=', '<', '<>', '>='])
    yield from chains(3, ['TRUE', 'FALSE'], ['AND', 'OR', '=', '<>'])
    yield from chains(4, ['TRUE', 'FALSE'], ['AND', 'OR'])
    for a in ('TRUE', 'FALSE', '1 = 1', 'NOT TRUE', '2 > 3'):
        for o in ('AND', 'OR'):
            for b in ('1 / 0 = 1', '1 DIV 0 = 1', 'zzz', 'fi(1) = 2', '"a"', '5', 'NOT 5', 'TRUE', 'FALSE'):
                yield '%s %s %s' % (a, o, b)
    if tier == 'thorough':
        yield from chains(3, ['7', '2', '2.5', 'TRUE', '"a"'])
        yield from chains(4, ['7', 'TRUE'], OPS)
        yield from parenthesised(4, [('17', '5', '3', '2', '7')], OPS)
        yield from decorated(3, [('7', '2', '3', '5'), ('TRUE', '2', '3', 'FALSE')], OPS, ('', '-', 'NOT '))
        yield from chains(6, ['9', '4'], ['+', '-', '*', 'DIV', 'MOD'])
        yield from chains(5, ['5', '2.0', '3'], ['+', '-', '*', '/'])
        yield from parenthesised(5, [('17', '5', '3', '2', '7', '4')], ['+', '-', '*', 'DIV', 'MOD'])
        yield from parenthesised(4, [('17', '2.5', '3', '2', '0.5')], ['+', '-', '*', '/', '<', '='])


DECL = '''TYPE E = (ea, eb, ec)
DECLARE vi, vj : INTEGER
DECLARE vr : REAL
vi <- 17
vj <- -5
vr <- 2.5
'''


def output_file(ctx, es, _):
    """The same expressions through OUTPUT, in file mode: those that evaluate, together; the failing ones alone."""
    import psref
    good = []
    for e in es:
        m = psref.Model()
        if m.run_file(DECL + 'OUTPUT ' + e + '\n') == 0:
            good.append(e)
    src = DECL + ''.join('OUTPUT %s\n' % e for e in good) + ''.join('x%d <- %s\nOUTPUT x%d\n' % (i, e, i) for i, e in enumerate(good))
    ctx.diff(src)
    good = set(good)
    for e in es:
        if e not in good:
            ctx.diff(DECL + 'OUTPUT "x"\nOUTPUT %s\nOUTPUT "y"\n' % e)


def cases(tier):
    yield from scale.cases(tier, 'C02')
    yield from transport.cases(tier, 'C02')
    yield from rerun.cases(tier, 'C02')
    yield from batches(PRE, exprs(tier), 150, **dict(model_kw=dict(steps=100000)))

    def files():
        yield from pairs_small()
        yield from chains(2, ['7', '2', '2.5'], OPS)
        yield from chains(3, ['7', '2'], NUMOPS + ['<'])
        if tier == 'thorough':
            yield from chains(3, ['7', '2', 'TRUE'], OPS)
    for c in chunks(files(), 60):
        yield (output_file, c, 0)


def pairs_small():
    vals = ['0', '1', '(-1)', '7', '2', '(-3)', '0.0', '0.5', '2.0', '(-1.5)', 'TRUE', 'FALSE', "'a'", '""', '"a"', '"b"', '1/2/2000', 'ea', 'eb',
            'vi', 'vj', 'vr']
    for a, o, b in itertools.product(vals, OPS, vals):
        yield '%s %s %s' % (a, o, b)
