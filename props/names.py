"""Names that are easily confused: prefixes of one another, differing only in case, in one place, in length,
or beginning like a keyword. Programs that use several entities of one kind (or of different kinds) with such
names; every entity holds its own value and all of them are read back after every store."""
import itertools

POOL = ['a', 'ab', 'abc', 'A', 'aB', 'b', 'ba', 'a1', 'a12', 'a_', '_a', 'a_b', 'b1']
KEYWORDISH = ['TOx', 'To', 'IFx', 'iF', 'ENDx', 'INTEGERs', 'Integer', 'TRUEx', 'true', 'ORx', 'or', 'DIVx', 'Mod', 'NOTx', 'OFx', 'Output', 'OUTPUTs', 'NEXTx', 'RETURNx', 'CASEx', 'ARRAYs', 'STRINGs', 'CHARx', 'DATEs',
              'BYREFx', 'STEPx', 'CONSTANTs', 'LENGTHx', 'TYPEx', 'DOx', 'UNTILx']
LONG = ['x' * 40, 'x' * 40 + 'y', 'x' * 39 + 'y', 'y' + 'x' * 39]


def tuples(tier):
    n = 2
    yield from itertools.permutations(POOL, n)
    yield from itertools.permutations(LONG, 2)
    for k in KEYWORDISH:
        yield (k, k[:-1] if len(k) > 3 and k[:-1].upper() != k[:-1] else k + '1')
        yield ('z', k)
    for t in itertools.permutations(POOL[:5], 3):
        yield t
    if tier == 'thorough':
        yield from itertools.permutations(POOL, 3)


def show(exprs):
    return 'OUTPUT ' + ', "|", '.join(exprs) + '\n'


def variables(ns):
    s = 'DECLARE %s : INTEGER\n' % ', '.join(ns)
    for k, n in enumerate(ns):
        s += '%s <- %d\n' % (n, k + 1) + show(ns)
    s += 'INPUT %s\n' % ns[-1] + show(ns) + 'FOR %s <- 1 TO 2\nOUTPUT %s, %s\nNEXT %s\n' % (ns[0], ns[0], ns[-1], ns[0]) + show(ns)
    s += 'p <- %s + %s * 10\nOUTPUT p\n' % (ns[0], ns[-1])
    return s


def undeclared(ns):
    """Only the first one exists."""
    return '%s <- 5\nOUTPUT %s\nOUTPUT %s\n' % (ns[0], ns[0], ns[1])


def constants(ns):
    s = ''
    for k, n in enumerate(ns):
        s += 'CONSTANT %s = %d\n' % (n, k + 3) + show(ns[:k + 1])
    return s + '%s <- 9\nOUTPUT "assigned"\n' % ns[-1]


def constvar(ns):
    s = 'CONSTANT %s = 7\nDECLARE %s : INTEGER\n' % (ns[0], ns[1]) + show(ns[:2]) + '%s <- 8\n' % ns[1] + show(ns[:2])
    return s + '%s <- 9\nOUTPUT "assigned"\n' % ns[0]


def arrays(ns):
    s = ''
    for k, n in enumerate(ns):
        s += 'DECLARE %s : ARRAY[%d:%d] OF INTEGER\n' % (n, k, k + 2 + k)
    ex = ['%s[%d]' % (n, k + 1) for k, n in enumerate(ns)]
    for k, n in enumerate(ns):
        s += '%s[%d] <- %d\n' % (n, k + 1, k + 10) + show(ex)
    s += 'FOR i <- 0 TO 9\nOUTPUT i\n%s[i] <- i\n%s[i] <- 2\nNEXT i\n' % (ns[0], ns[1])
    return s


def arrvar(ns):
    s = 'DECLARE %s : ARRAY[1:2] OF INTEGER\nDECLARE %s : INTEGER\n%s[1] <- 4\n%s <- 5\nOUTPUT %s[1], %s\n' % (ns[0], ns[1], ns[0], ns[1], ns[0], ns[1])
    return s + '%s[2] <- %s\nOUTPUT %s[2]\nOUTPUT %s[1]\n' % (ns[0], ns[1], ns[0], ns[1])


def fields(ns):
    s = 'TYPE R\n' + ''.join('DECLARE %s : INTEGER\n' % n for n in ns) + 'ENDTYPE\nDECLARE r, s : R\n'
    ex = ['%s.%s' % (v, n) for v in 'rs' for n in ns]
    for k, n in enumerate(ns):
        s += 'r.%s <- %d\n' % (n, k + 1) + show(ex)
    return s + 's <- r\nr.%s <- 50\n' % ns[0] + show(ex)


def arrfields(ns):
    """Array fields first, last and mixed with scalar ones."""
    out = []
    for kinds in ('aa', 'as', 'sa'):
        s = 'TYPE R\n'
        ex, st = [], []
        for k, n in enumerate(ns):
            kd = kinds[k % 2]
            s += 'DECLARE %s : %s\n' % (n, 'ARRAY[0:%d] OF INTEGER' % (k + 1) if kd == 'a' else 'INTEGER')
            ex.append('r.%s%s' % (n, '[%d]' % (k + 1) if kd == 'a' else ''))
        s += 'ENDTYPE\nDECLARE r, q : R\n'
        for k, e in enumerate(ex):
            s += '%s <- %d\n' % (e, k + 20) + show(ex)
        s += 'q <- r\n%s <- 1\n' % ex[0] + show(ex) + show([e.replace('r.', 'q.') for e in ex]) + 'OUTPUT q.%s\nOUTPUT q.%s[1]\n' % (ns[0], ns[1])
        out.append(s)
    return out


def recfields(ns):
    s = 'TYPE I\nDECLARE v : INTEGER\nENDTYPE\nTYPE R\n' + ''.join('DECLARE %s : %s\n' % (n, 'I' if k % 2 == 0 else 'ARRAY[1:2] OF I') for k, n in enumerate(ns)) + 'ENDTYPE\nDECLARE r, q : R\n'
    ex = ['r.%s%s.v' % (n, '' if k % 2 == 0 else '[2]') for k, n in enumerate(ns)]
    for k, e in enumerate(ex):
        s += '%s <- %d\n' % (e, k + 20) + show(ex)
    return s + 'q <- r\n%s <- 1\n' % ex[0] + show(ex) + show([e.replace('r.', 'q.') for e in ex])


def params(ns):
    out = []
    for m in ('', 'BYREF '):
        s = 'DECLARE g, h, i : INTEGER\ng <- 1\nh <- 2\ni <- 3\nPROCEDURE pp(%s)\n' % ', '.join('%s%s : INTEGER' % (m if k == 0 else '', n) for k, n in enumerate(ns))
        for k, n in enumerate(ns):
            s += '%s <- %s * 10\n' % (n, n) + show(ns)
        s += 'ENDPROCEDURE\nCALL pp(%s)\nOUTPUT g, h, i\n' % ', '.join('ghi'[:len(ns)])
        out.append(s)
    # a local / parameter and a global with a similar name
    out.append('%s <- 5\nPROCEDURE pp(%s : INTEGER)\n%s <- %s + 1\n%s <- 70\nOUTPUT %s, %s\nENDPROCEDURE\nCALL pp(8)\nOUTPUT %s\n' % (ns[0], ns[1], ns[0], ns[0], ns[1], ns[0], ns[1], ns[0]))
    return out


def procedures(ns):
    s = ''.join('PROCEDURE %s(x : INTEGER)\nOUTPUT "p%d", x\nENDPROCEDURE\n' % (n, k) for k, n in enumerate(ns)) + ''.join('CALL %s(%d)\n' % (n, k) for k, n in enumerate(ns))
    return [s, 'PROCEDURE %s()\nOUTPUT "p"\nENDPROCEDURE\nCALL %s\nCALL %s\n' % (ns[0], ns[0], ns[1])]


def functions(ns):
    s = ''.join('FUNCTION %s(x : INTEGER) RETURNS INTEGER\nRETURN x * %d\nENDFUNCTION\n' % (n, k + 2) for k, n in enumerate(ns)) + ''.join('OUTPUT %s(%d)\n' % (n, k + 5) for k, n in enumerate(ns))
    return [s + 'OUTPUT %s(%s(1))\n' % (ns[0], ns[1]), 'FUNCTION %s() RETURNS INTEGER\nRETURN 1\nENDFUNCTION\nOUTPUT %s()\nOUTPUT %s()\n' % (ns[0], ns[0], ns[1])]


def elements(ns):
    out = ['TYPE E = (%s)\nDECLARE e : E\n' % ', '.join(ns) + ''.join('e <- %s\nOUTPUT e, e = %s, e = %s\n' % (n, ns[0], ns[-1]) for n in ns) + 'OUTPUT %s + 1, %s - 1\n' % (ns[0], ns[-1])]
    out.append('TYPE E = (%s, x1)\nTYPE F = (x2, %s)\nDECLARE e : E\nDECLARE f : F\ne <- %s\nf <- %s\nOUTPUT e, f\nf <- %s\nOUTPUT f\n' % (ns[0], ns[1], ns[0], ns[1], ns[0]))
    out.append('TYPE E = (%s, x1)\n%s <- 5\nOUTPUT %s, %s\nDECLARE e : E\ne <- %s\n' % (ns[0], ns[1], ns[0], ns[1], ns[0]))
    return out


def types(ns):
    defs = ['TYPE %s = (ea, eb)', 'TYPE %s = ^INTEGER', 'TYPE %s\nDECLARE n : INTEGER\nENDTYPE']
    uses = ['%s <- eb\nOUTPUT %s', 't <- 5\n%s <- ^t\nOUTPUT %s^', '%s.n <- 6\nOUTPUT %s.n']
    out = []
    for i, j in itertools.permutations(range(3), 2):
        s = defs[i] % ns[0] + '\n' + defs[j] % ns[1] + '\nDECLARE u1 : %s\nDECLARE u2 : %s\n' % (ns[0], ns[1])
        out.append(s + uses[i].replace('%s', 'u1') + '\n' + uses[j].replace('%s', 'u2') + '\nu1 <- u2\nOUTPUT "e"\n')
    for i in range(3):
        out.append(defs[i] % ns[0] + '\nOUTPUT "d"\nDECLARE u1 : %s\nOUTPUT "k"\nDECLARE u2 : %s\nOUTPUT "e"\n' % (ns[0], ns[1]))
    return out


def typemix(ns):
    """A variable named like part of a type name and the reverse."""
    return 'TYPE %s\nDECLARE n : INTEGER\nENDTYPE\nDECLARE %s : %s\n%s.n <- 3\nOUTPUT %s.n\nFUNCTION f(x : %s) RETURNS %s\nx.n <- x.n + 1\nRETURN x\nENDFUNCTION\n%s <- f(%s)\nOUTPUT %s.n\n' % (
        ns[0], ns[1], ns[0], ns[1], ns[1], ns[0], ns[0], ns[1], ns[1], ns[1])


KINDS = {'C04': (variables, undeclared, params, procedures, functions), 'C06': (arrays, arrvar), 'C07': (fields, arrfields, recfields, typemix), 'C08': (constants, constvar), 'C19': (elements, types)}


def cases(tier, prop):
    for ns in tuples(tier):
        for f in KINDS[prop]:
            s = f(ns)
            yield from ([s] if isinstance(s, str) else s)
