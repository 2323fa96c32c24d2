"""Every way to name a storage cell, up to a depth: shared by C04, C06, C07, C08 and C09."""

PRE = '''TYPE PI = ^INTEGER
TYPE Inner
DECLARE x : INTEGER
DECLARE a : ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE Mid
DECLARE y : INTEGER
DECLARE i : Inner
DECLARE ia : ARRAY[2:3] OF Inner
ENDTYPE
TYPE Outer
DECLARE z : INTEGER
DECLARE m : Mid
DECLARE ma : ARRAY[0:1] OF Mid
ENDTYPE
TYPE PInner = ^Inner
TYPE PMid = ^Mid
TYPE POuter = ^Outer
'''

ROOTS = [('v', 'INTEGER'), ('arr[k]', 'INTEGER'), ('aa[0, k]', 'INTEGER'), ('n', 'Inner'), ('na[k]', 'Inner'), ('m', 'Mid'), ('ma[k, 5]', 'Mid'), ('o', 'Outer'), ('oa[k]', 'Outer'),
         ('pn^', 'Inner'), ('pm^', 'Mid'), ('po^', 'Outer'), ('pi^', 'INTEGER')]

# declares the storage of every root; `hn`.. are what the pointers point to
DECLS = '''DECLARE k, v, hv : INTEGER
DECLARE arr : ARRAY[1:2] OF INTEGER
DECLARE aa : ARRAY[0:1, 1:2] OF INTEGER
DECLARE n, hn : Inner
DECLARE na : ARRAY[1:2] OF Inner
DECLARE m, hm : Mid
DECLARE ma : ARRAY[1:2, 4:5] OF Mid
DECLARE o, ho : Outer
DECLARE oa : ARRAY[1:3] OF Outer
DECLARE pi : PI
DECLARE pn : PInner
DECLARE pm : PMid
DECLARE po : POuter
k <- 2
pi <- ^hv
pn <- ^hn
pm <- ^hm
po <- ^ho
'''

EXT = {'Inner': [('.x', 'INTEGER'), ('.a[k]', 'INTEGER')],
       'Mid': [('.y', 'INTEGER'), ('.i', 'Inner'), ('.ia[k]', 'Inner')],
       'Outer': [('.z', 'INTEGER'), ('.m', 'Mid'), ('.ma[k - 1]', 'Mid')]}


def paths(roots=ROOTS, types=('INTEGER',)):
    """All (path, type) whose type is among types, from every root."""
    def grow(p, t):
        if t in types:
            yield p, t
        for e, u in EXT.get(t, ()):
            yield from grow(p + e, u)
    for p, t in roots:
        yield from grow(p, t)


LEAF = {'INTEGER': '', 'Inner': '.a[2]', 'Mid': '.ia[3].x', 'Outer': '.ma[0].i.a[1]'}
PTR = {'INTEGER': 'PI', 'Inner': 'PInner', 'Mid': 'PMid', 'Outer': 'POuter'}


def canon(path):
    """The same cell with literal indices and without going through a pointer."""
    for a, b in (('[k', '[2'), (', k', ', 2'), ('pi^', 'hv'), ('pn^', 'hn'), ('pm^', 'hm'), ('po^', 'ho')):
        path = path.replace(a, b)
    return path


CHURN = '''PROCEDURE churn(s : STRING, z1 : INTEGER, z2 : INTEGER, z3 : INTEGER)
DECLARE c1, c2 : INTEGER
DECLARE c3 : ARRAY[1:3] OF INTEGER
DECLARE c4 : Inner
DECLARE t : STRING
c1 <- 901
c2 <- 902
c3[2] <- 903
c4.x <- 904
t <- s & s
IF z1 > 0 THEN
CALL churn(t, z1 - 1, 905, 906)
ENDIF
ENDPROCEDURE
'''


OTHER = 'OUTPUT v, " ", hv, " ", k, " ", n.x, " ", hn.a[2], " ", m.y, " ", hm.ia[2].x, " ", o.z, " ", ho.ma[1].y, " ", oa[2].m.i.x, " ", oa[3].z, " ", arr[1], " ", arr[2], " ", aa[0, 2], " ", na[2].x\n'
MOVE = 'k <- 1\npi <- ^v\npn <- ^n\npm <- ^m\npo <- ^oa[3]\n'


def chains(tier):
    """Arguments of every form passed down every chain of BYVAL/BYREF parameters, written at every level."""
    import itertools
    for p, t in paths(types=('INTEGER', 'Inner', 'Mid', 'Outer')):
        c, l = canon(p), LEAF[t]
        deep = 3 if tier == 'thorough' or p.count('.') < 2 else 2
        for n in range(1, deep + 1):
            for modes in itertools.product(('BYREF', 'BYVAL'), repeat=n):
                for fn in (False, True):
                    src = 'DECLARE w : INTEGER\n'
                    for j in range(n):
                        body = 'x%s <- x%s * 10 + %d\nOUTPUT "i%d ", x%s\n' % (l, l, j + 1, j, l)
                        if j:
                            body += ('w <- f%d(x, %d)\n' if fn else 'CALL f%d(x, %d)\n') % (j - 1, j)
                            body += 'OUTPUT "o%d ", x%s, " ", y\nx%s <- x%s + 100\n' % (j, l, l, l)
                        if j == n - 1:
                            body = MOVE + body
                        src += ('FUNCTION f%d(%s x : %s, BYVAL y : INTEGER) RETURNS INTEGER\n%sRETURN x%s\nENDFUNCTION\n' % (j, modes[j], t, body, l) if fn else
                                'PROCEDURE f%d(%s x : %s, BYVAL y : INTEGER)\n%sENDPROCEDURE\n' % (j, modes[j], t, body))
                    call = ('OUTPUT f%d(%s, 77)\n' if fn else 'CALL f%d(%s, 77)\n') % (n - 1, p)
                    yield PRE + DECLS + src + '%s%s <- 4\n' % (c, l) + call + 'OUTPUT "end ", %s%s\n' % (c, l) + OTHER
                    if n < 3:
                        # the argument belongs to an activation (names are resolved there)
                        loc = DECLS + '%s%s <- 4\n' % (c, l) + call + 'OUTPUT "end ", %s%s\n' % (c, l) + OTHER
                        yield PRE + src.replace(MOVE, '') + 'PROCEDURE own(d : INTEGER)\n%sIF d > 0 THEN\nCALL own(d - 1)\nOUTPUT "again ", %s%s\nENDIF\nENDPROCEDURE\nCALL own(1)\n' % (loc, c, l)


def cells(tier):
    """Every path written with a distinct value and all read back; then indices and pointers move."""
    ps = [p for p, t in paths()]
    cs = [canon(p) for p in ps]
    show = ''.join('OUTPUT %s, ",", %s\n' % (c, c) for c in cs)
    for where in ('%s', 'PROCEDURE f()\n%sENDPROCEDURE\nCALL f\nCALL f\n', 'FUNCTION f() RETURNS INTEGER\n%sRETURN 1\nENDFUNCTION\nOUTPUT f() + f()\n'):
        yield PRE + where % (DECLS + ''.join('%s <- %d\n' % (p, 100 + j) for j, p in enumerate(ps)) + show + MOVE + ''.join('OUTPUT %s\n' % p.replace('ia[k', 'ia[k + 1').replace('k - 1', 'k') for p in ps) + show)
        # the same statement executed with different indices and pointers
        for p in ps:
            q = p.replace('.ia[k', '.ia[j').replace('.ma[k - 1', '.ma[k - 1').replace('.a[k', '.a[k')
            yield PRE + where % ('DECLARE j : INTEGER\n' + DECLS + 'j <- 2\nFOR r <- 1 TO 5\n%s <- %s + r * 10 + k\nOUTPUT r, " ", %s, " ", k\nIF r = 1 THEN\nk <- 1\nENDIF\nIF r = 2 THEN\nj <- 3\nENDIF\nIF r = 3 THEN\npi <- ^v\npn <- ^na[k]\npm <- ^ma[k, 4]\npo <- ^oa[3]\nENDIF\n'
                                 'IF r = 4 THEN\nk <- 2\nENDIF\nNEXT r\n' % (q, q, q) + show)
