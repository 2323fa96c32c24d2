"""C09: pointers alias exactly their live target; dead or unset pointers are diagnosed."""
import itertools

from gen import batch, batches, prog
import paths
import merge
import rerun
import scale

INFO = dict(
    rule='all histories up to the depth over an alphabet of pointer bindings (variables, elements, fields, pointees, locals of live and returned activations, BYREF '
         'parameters), copies (assignment, BYVAL, BYREF, return, record copy, array copy) and writes on either side, with all pointees and variables dumped after '
         'every step of a REPL session; all pointer types x all target forms; programs in which frames are left and re-entered in every order up to the depth',
    assumptions=['what the REPL echoes for a pointer itself is not asserted'],
    flavor={'quick': 'plain', 'thorough': 'plain'})

PRE = ['TYPE PI = ^INTEGER', 'TYPE PP = ^PI', 'TYPE R\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nDECLARE p : PI\nENDTYPE', 'TYPE PR = ^R',
       'DECLARE a, b, i : INTEGER', 'DECLARE arr, brr : ARRAY[1:2] OF INTEGER', 'DECLARE r, s : R', 'DECLARE ra : ARRAY[1:2] OF R', 'DECLARE p, q : PI', 'DECLARE pp : PP', 'DECLARE pr : PR',
       'DECLARE pa : ARRAY[1:2] OF PI',
       'a <- 1', 'b <- 2', 'i <- 1', 'arr[1] <- 11', 'arr[2] <- 12', 'r.n <- 21', 'r.a[1] <- 22', 's.n <- 23', 'ra[2].n <- 24', 'brr[1] <- 31',
       'PROCEDURE bind(BYREF x : INTEGER)\np <- ^x\nENDPROCEDURE',
       'PROCEDURE bindv(x : INTEGER)\np <- ^x\nx <- x + 1\nOUTPUT "bv", p^\nENDPROCEDURE',
       'PROCEDURE bindl()\nDECLARE l : INTEGER\nl <- 71\np <- ^l\np^ <- p^ + 1\nOUTPUT "bl", l\nENDPROCEDURE',
       'PROCEDURE bindn()\nl <- 73\nq <- ^l\nOUTPUT "bn", q^\nENDPROCEDURE',
       'PROCEDURE other()\nDECLARE m : INTEGER\nDECLARE l : INTEGER\nm <- 555\nl <- 556\nOUTPUT "o", m, l\nENDPROCEDURE',
       'PROCEDURE usep()\nDECLARE l : INTEGER\nl <- 81\nOUTPUT "u", p^\np^ <- p^ + 100\nOUTPUT l\nENDPROCEDURE',
       'PROCEDURE nest()\nDECLARE l : INTEGER\nl <- 91\np <- ^l\nCALL usep\nOUTPUT "n", l\nENDPROCEDURE',
       'PROCEDURE setv(x : PI)\nx^ <- x^ + 7\nx <- ^b\nx^ <- x^ + 8\nENDPROCEDURE',
       'PROCEDURE setr(BYREF x : PI)\nx <- ^arr[2]\nx^ <- x^ + 9\nENDPROCEDURE',
       'FUNCTION getp(k : INTEGER) RETURNS PI\nDECLARE z : PI\nIF k = 1 THEN\nz <- ^a\nENDIF\nIF k = 2 THEN\nz <- ^k\nENDIF\nRETURN z\nENDFUNCTION',
       'PROCEDURE reclocal()\nDECLARE l : R\nl.n <- 61\npr <- ^l\nl.p <- ^l.n\nr <- l\nOUTPUT pr^.n\nENDPROCEDURE']
DUMP = ['OUTPUT a, ",", b, ",", i, ",", arr[1], ",", arr[2], ",", brr[1], ",", r.n, ",", r.a[1], ",", s.n, ",", s.a[1], ",", ra[1].n, ",", ra[2].n', 'p^', 'q^', 'pp^^', 'pr^.n', 'r.p^', 'pa[1]^']
OPS = ['p <- ^a', 'p <- ^b', 'p <- ^arr[i]', 'p <- ^r.n', 'p <- ^ra[2].n', 'p <- ^r.a[1]', 'q <- p', 'p <- q', 'q <- ^p^', 'p^ <- 40', 'p^ <- p^ + 1', 'q^ <- p^ * 2', 'a <- p^ + 3', 'a <- 5', 'i <- 2', 'arr[1] <- 13', 'r.n <- 26',
       'arr <- brr', 'r <- s', 's <- r', 'ra[2] <- r', 'CALL bind(a)', 'CALL bind(arr[1])', 'CALL bind(r.n)', 'CALL bindv(a)', 'CALL bindl', 'CALL bindn', 'CALL other', 'CALL usep', 'CALL nest', 'CALL setv(p)', 'CALL setr(p)',
       'CALL setr(q)', 'p <- getp(1)', 'p <- getp(2)', 'p <- getp(3)', 'pp <- ^p', 'pp <- ^q', 'pp^ <- ^b', 'pp^^ <- 45', 'pp^ <- q', 'pr <- ^r', 'pr <- ^ra[2]', 'pr^.n <- 46', 's <- pr^', 'pr^ <- s', 'CALL reclocal', 'r.p <- ^b',
       'r.p <- p', 'r.p^ <- 47', 'q <- r.p', 'pa[1] <- p', 'pa[1]^ <- 48', 'pa[2] <- pa[1]', 'INPUT p^', 'CALL bind(p^)']


def exp(o):
    return [o, '66'] if o.startswith('INPUT') else [o]


def history(ctx, ops):
    batch(ctx, PRE, [[x for o in ops for x in exp(o) + DUMP]], model_kw=dict(steps=60000))


def histories(ctx, suffixes):
    """Histories with a common prefix share no session: each starts from the initial state."""
    for ops in suffixes:
        history(ctx, ops)


# ---- all pointer types x target forms
TY = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E', 'F', 'R', 'Q', 'PI', 'PE']
TPRE = ['TYPE E = (ea, eb)', 'TYPE F = (fa, fb)', 'TYPE PI = ^INTEGER', 'TYPE PE = ^E', 'TYPE R\nDECLARE n : INTEGER\nENDTYPE', 'TYPE Q\nDECLARE n : INTEGER\nENDTYPE']
WR = {'INTEGER': '5', 'REAL': '2.5', 'BOOLEAN': 'TRUE', 'CHAR': "'c'", 'STRING': '"st"', 'DATE': '1/2/2003', 'E': 'eb', 'F': 'fb', 'R': 'v9', 'Q': 'v10', 'PI': 'v11', 'PE': 'v12'}


def types(ctx, tp):
    pre = list(TPRE) + ['TYPE T%d = ^%s' % (k, t) for k, t in enumerate(TY)]
    pre += ['DECLARE v%d : %s' % (k + 1, t) for k, t in enumerate(TY)] + ['DECLARE a%d : ARRAY[1:2] OF %s' % (k + 1, t) for k, t in enumerate(TY)]
    pre += ['TYPE Z\n' + '\n'.join('DECLARE f%d : %s' % (k + 1, t) for k, t in enumerate(TY)) + '\nENDTYPE', 'DECLARE z : Z', 'DECLARE k : INTEGER', 'DECLARE kk : E', 'v11 <- ^k', 'v12 <- ^kk', 'DECLARE p, q : T%d' % tp]
    ty = TY[tp]
    es = []
    acc = {'R': '.n', 'Q': '.n', 'PI': '^', 'PE': '^'}.get(ty, '')
    for k, t in enumerate(TY):
        for f in ('v%d', 'a%d[2]', 'z.f%d'):
            x = f % (k + 1)
            es.append(['p <- ^%s' % x, 'p^%s' % acc, 'p^ <- %s' % WR[ty], 'p^%s' % acc] + ([x + acc] if t == ty else []) + ['p^ <- %s' % WR[TY[(tp + 3) % len(TY)]], 'p^%s' % acc, 'q <- p', 'q^%s' % acc])
        es.append(['DECLARE o%d : T%d' % (k, k), 'p <- o%d' % k, 'o%d <- p' % k, 'p^%s' % acc])
    for x in ('a1', 'z', '5', '"s"', 'nosuch', 'a1[3]', 'z.nope', 'E', 'ea', 'LENGTH("a")', 'v1 + 1', '(v1)', 'p', 'p^', 'k', 'T0'):
        es.append(['p <- ^%s' % x, 'p^%s' % acc])
    for x in ('5', 'v1', 'v%d' % (tp + 1), 'NULL', '0', '"s"', 'ea', 'v9'):
        es.append(['p <- %s' % x, 'p^%s' % acc, '%s <- p' % x])
    es += [['p'], ['p = q'], ['p + 1'], ['OUTPUT p'], ['p^^'], ['p.n'], ['p[1]'], ['^p'], ['k^'], ['k^ <- 5'], ['v1^'], ['v9^'], ['a1^'], ['p^[1]'], ['p^.zz']]
    batch(ctx, pre, es, model_kw=dict(steps=60000))


# ---- unset pointers of every kind
def unset(tier):
    pre = 'TYPE PI = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nDECLARE p : PI\nENDTYPE\nTYPE PR = ^R\nTYPE PS = ^STRING\nTYPE PP = ^PI\nTYPE L\nDECLARE v : INTEGER\nDECLARE p : PI\nENDTYPE\n'
    for d, e in (('DECLARE p : PI', 'p'), ('DECLARE r : R', 'r.p'), ('DECLARE a : ARRAY[1:2] OF PI', 'a[2]'), ('DECLARE a : ARRAY[1:2] OF R', 'a[1].p'), ('DECLARE p : PR', 'p'), ('DECLARE p : PS', 'p'), ('DECLARE p : PP', 'p'),
                 ('DECLARE x : PI\nDECLARE p : PP\np <- ^x', 'p^')):
        for u in ('OUTPUT %s^', '%s^ <- 5', '%s^ <- "s"', 'x1 <- %s^', 'CALL by(%s^)', 'CALL bv(%s^)', 'INPUT %s^', '%s^.n <- 3', 'OUTPUT %s^.n', 'OUTPUT %s^^', 'OUTPUT %s^ + 1', 'q <- ^%s^', 'FOR i <- 1 TO %s^\nNEXT i',
                  'DECLARE c : PI\nc <- %s\nOUTPUT c^', 'OUTPUT LENGTH(%s^)', 'IF %s^ = 1 THEN\nOUTPUT 1\nENDIF'):
            use = u % e
            yield pre + 'PROCEDURE by(BYREF x : INTEGER)\nx <- 1\nENDPROCEDURE\nPROCEDURE bv(x : INTEGER)\nOUTPUT x\nENDPROCEDURE\nDECLARE q : PI\n%s\nOUTPUT "s"\n%s\nOUTPUT "e"\n' % (d, use)
            yield pre + 'PROCEDURE by(BYREF x : INTEGER)\nx <- 1\nENDPROCEDURE\nPROCEDURE bv(x : INTEGER)\nOUTPUT x\nENDPROCEDURE\nDECLARE q : PI\nPROCEDURE m()\n%s\nOUTPUT "s"\n%s\nOUTPUT "e"\nENDPROCEDURE\nCALL m\n' % (d, use)


# ---- frames left and re-entered in every order
def frames(tier):
    """Procedures f (binds), g (other locals), h (uses); every call sequence up to the bound, also nested."""
    pre = 'TYPE PI = ^INTEGER\nDECLARE p, q : PI\nDECLARE z : INTEGER\nz <- 1000\np <- ^z\nq <- ^z\n'
    bodies = {
        'f': 'PROCEDURE f(n : INTEGER)\nDECLARE l : INTEGER\nl <- n * 10\n%s\nOUTPUT "f", p^, " ", l\nENDPROCEDURE\n',
        'g': 'PROCEDURE g(n : INTEGER)\nDECLARE l, m : INTEGER\nl <- 7000 + n\nm <- 7001\nIF n > 0 THEN\nCALL g(n - 1)\nENDIF\nOUTPUT "g", l, m\nENDPROCEDURE\n',
        'h': 'PROCEDURE h()\nOUTPUT "h", p^\np^ <- p^ + 1\nENDPROCEDURE\n',
        'k': 'PROCEDURE k(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nIF n = 0 THEN\n%s\nELSE\nCALL k(n - 1)\nENDIF\nOUTPUT "k", n, " ", l\nENDPROCEDURE\n',
        'r': 'PROCEDURE r(n : INTEGER)\nDECLARE l : INTEGER\nl <- n + 300\nIF n = 2 THEN\np <- ^l\nENDIF\nIF n > 0 THEN\nCALL r(n - 1)\nENDIF\nOUTPUT "r", n, " ", l, " ", p^\np^ <- p^ + 1\nENDPROCEDURE\n'}
    binds = ['p <- ^l', 'q <- p\np <- ^l', 'p <- ^n', 'IF n = 1 THEN\np <- ^l\nENDIF', 'p <- ^l\nCALL h', 'p <- ^l\nCALL g(1)\np^ <- p^ + 5', 'p <- ^l\nIF n > 0 THEN\nCALL f(n - 1)\nENDIF', 'p^ <- p^ + l']
    calls = ['CALL f(1)', 'CALL f(2)', 'CALL g(0)', 'CALL g(2)', 'CALL h', 'CALL k(1)', 'CALL r(3)', 'p <- ^z', 'p <- q', 'OUTPUT p^', 'OUTPUT q^, z']
    depth = 3 if tier == 'quick' else 4
    for b in binds:
        src = pre + bodies['h'] + bodies['g'] + bodies['f'] % b + bodies['k'] % 'CALL h' + bodies['r']
        for n in range(1, depth + 1):
            for s in itertools.product(calls, repeat=n):
                if n == depth and s[-1] not in ('CALL h', 'OUTPUT p^', 'OUTPUT q^, z'):
                    continue
                yield src + '\n'.join(s) + '\n'


def lists(tier):
    """Linked structures built from records with pointer fields."""
    for n in range(1, 5 if tier == 'quick' else 7):
        for order in itertools.permutations(range(1, n + 1)):
            src = 'TYPE PI = ^INTEGER\nTYPE N\nDECLARE v : INTEGER\nDECLARE nx : PI\nENDTYPE\nDECLARE ns : ARRAY[1:%d] OF N\n' % n
            for k in range(1, n + 1):
                src += 'ns[%d].v <- %d\n' % (k, k * 10)
            for x, y in zip(order, order[1:]):
                src += 'ns[%d].nx <- ^ns[%d].v\n' % (x, y)
            for x, y in zip(order, order[1:]):
                src += 'ns[%d].nx^ <- ns[%d].nx^ + %d\nOUTPUT ns[%d].v, " ", ns[%d].nx^\n' % (x, x, x, y, x)
            src += 'DECLARE c : ARRAY[1:%d] OF N\nc <- ns\n' % n
            for x, y in zip(order, order[1:]):
                src += 'c[%d].v <- 1\nOUTPUT c[%d].nx^, ns[%d].v\n' % (y, x, y)
            yield src + 'OUTPUT ns[%d].nx^\n' % order[-1]


# ---- every kind of target, bound directly and through chains of BYREF parameters
def targets(tier):
    for p, t in paths.paths(types=('INTEGER', 'Inner', 'Mid', 'Outer')):
        c, l, pt = paths.canon(p), paths.LEAF[t], paths.PTR[t]
        head = paths.PRE + 'DECLARE q, q2 : %s\nTYPE RP\nDECLARE q : %s\nENDTYPE\nDECLARE rp, rp2 : RP\n' % (pt, pt) + paths.CHURN
        use = ('%s%s <- 5\nOUTPUT q^%s\nq^%s <- 6\nOUTPUT %s%s\nq2 <- q\nrp.q <- q\nrp2 <- rp\nCALL churn("ab", 2, 3, 4)\nOUTPUT q2^%s, rp2.q^%s\nq2^%s <- 7\nOUTPUT %s%s, q^%s\n%s%s <- 8\nOUTPUT rp2.q^%s, rp.q^%s\n' %
               (c, l, l, l, c, l, l, l, l, c, l, l, c, l, l, l))
        other = 'OUTPUT v, hv, k, n.x, hn.a[2], m.y, hm.ia[2].x, o.z, ho.ma[1].y, oa[2].m.i.x, oa[3].z, arr[1], arr[2], aa[0, 2], na[2].x\n'
        move = 'k <- 1\npi <- ^v\npn <- ^n\npm <- ^m\npo <- ^oa[3]\n'
        # directly, at top level and among the locals of an activation (dead afterwards)
        yield head + paths.DECLS + 'q <- ^%s\n' % p + move + use + other
        for local in ('PROCEDURE f()\n%sENDPROCEDURE\nCALL f\n', 'FUNCTION f() RETURNS INTEGER\n%sRETURN 1\nENDFUNCTION\nOUTPUT f()\n'):
            for after in ('OUTPUT "after"\nOUTPUT q^%s\n' % l, 'OUTPUT "after"\nOUTPUT q2^%s\n' % l, 'OUTPUT "after"\nq^%s <- 1\n' % l, 'OUTPUT "after"\nOUTPUT rp2.q^%s\n' % l, 'CALL f\nCALL churn("a", 1, 1, 1)\nOUTPUT rp.q^%s\n' % l):
                yield head + local % (paths.DECLS + 'q <- ^%s\n' % p + move + use + other) + after
        # through a chain of calls: every sequence of passing modes and kinds of routine
        depth = 3
        for n in range(1, depth + 1):
            for modes in itertools.product(('BYREF', 'BYVAL'), repeat=n):
                for fn in ((False,) * n, (True,) * n) if n > 1 else ((False,), (True,)):
                    src = ''
                    for k in range(n):
                        inner = 'q <- ^x\nx%s <- 3\nOUTPUT q^%s\n' % (l, l) if k == 0 else ('y <- f%d(x)\n' if fn[k - 1] else 'CALL f%d(x)\n') % (k - 1)
                        inner += 'OUTPUT "d%d ", x%s\n' % (k, l)
                        src += ('FUNCTION f%d(%s x : %s) RETURNS INTEGER\n%sRETURN 0\nENDFUNCTION\n' if fn[k] else 'PROCEDURE f%d(%s x : %s)\n%sENDPROCEDURE\n') % (k, modes[k], t, inner)
                    call = ('y <- f%d(%s)\n' if fn[-1] else 'CALL f%d(%s)\n') % (n - 1, p)
                    if n == 3 and tier == 'quick' and p.count('.') == 1:
                        continue
                    yield head + src + paths.DECLS + call + 'CALL churn("s", 1, 2, 3)\n' + move + use + other
                    if modes[0] == 'BYREF' and 'BYVAL' not in modes:
                        # the owner is an activation
                        yield head + src + 'PROCEDURE own()\n' + paths.DECLS + call + 'CALL churn("s", 1, 2, 3)\n' + move + use + other + 'ENDPROCEDURE\nCALL own\nOUTPUT "after"\nOUTPUT q^%s\n' % l
    # bound to a part of a record passed by reference, and by value
    for root, rt in paths.ROOTS:
        if rt == 'INTEGER':
            continue
        for p, t in paths.paths([('x', rt)], ('INTEGER', 'Inner', 'Mid')):
            if p == 'x':
                continue
            l, pt, c = paths.LEAF[t], paths.PTR[t], paths.canon(root + p[1:])
            head = paths.PRE + 'DECLARE q : %s\nDECLARE k : INTEGER\n' % pt + paths.CHURN
            for chain in (('BYREF',), ('BYREF', 'BYREF'), ('BYVAL',), ('BYREF', 'BYVAL'), ('BYVAL', 'BYREF')):
                src = ''
                for n, m in enumerate(chain):
                    src += 'PROCEDURE f%d(%s x : %s)\n%sOUTPUT "d%d ", q^%s, x%s%s\nENDPROCEDURE\n' % (n, m, rt, 'q <- ^%s\n%s%s <- 3\n' % (p, p, l) if n == 0 else 'CALL f%d(x)\n' % (n - 1), n, l, p[1:], l)
                yield (head + src + paths.DECLS.replace('DECLARE k, v', 'DECLARE v') + 'CALL f%d(%s)\nCALL churn("s", 1, 2, 3)\nOUTPUT q^%s, %s%s\nq^%s <- 4\nOUTPUT %s%s\n%s%s <- 5\nOUTPUT q^%s\n' %
                       (len(chain) - 1, root, l, c, l, l, c, l, c, l, l))


def cases(tier):
    yield from scale.cases(tier, 'C09')
    yield from rerun.cases(tier, 'C09')
    yield from merge.cases(tier, 'C09')
    for s in targets(tier):
        yield (prog, s)
    for k in range(len(TY)):
        yield (types, k)
    for s in unset(tier):
        yield (prog, s)
    for s in lists(tier):
        yield (prog, s)
    for s in frames(tier):
        yield (prog, s)
    for n in (1, 2):
        for ops in itertools.product(OPS, repeat=n):
            yield (history, ops)
    third = OPS if tier == 'thorough' else ['p^ <- 40', 'a <- 5', 'CALL usep', 'pp^^ <- 45', 's <- r', 'CALL other', 'q <- p', 'r.p^ <- 47', 'pr^.n <- 46']
    for ops in itertools.product(OPS, OPS, third):
        yield (history, ops)
