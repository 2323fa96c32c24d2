"""Boundary values of every type carried from one variable to another by every route of the language (assignment, array
elements, whole arrays, fields, whole records, nested composites, pointers, by-value and by-reference arguments, returned
values, CASE labels, loop counters, text and random files, identities of operators, built-ins and casts), and by every
sequence of two routes. The value that arrives must be the one sent: compared with the model, in a file and in a session."""
import itertools

from gen import session

RULE = ('transport: boundary values of every type (64-bit limits, fractions, every kind of byte in CHAR and STRING, calendar limits, enumerations, records) carried by every sequence of two '
        'routes (assignment, elements, fields, composites, pointers, arguments, results, CASE, loops, files, identities), props/transport.py')

S = lambda *codes: ' & '.join('CHR(%d)' % c for c in codes)
VALUES = {
    'INTEGER': ['0', '1', '-1', '7', '-300', '65537', '2147483648', '-2147483649', '4294967296', '9007199254740993', '-9007199254740993', '9223372036854775807', '-9223372036854775807'],
    'REAL': ['0.0', '1.0', '-1.0', '0.5', '-2.25', '123456.789', '0.000125', '1000000000000.5', '9007199254740993.0', '100000000000000000000.0', '3.0'],
    'BOOLEAN': ['TRUE', 'FALSE'],
    'CHAR': ["'a'", "'Z'", "' '", "'0'", "'\\n'", "'\\''", "'\"'", 'CHR(0)', 'CHR(1)', 'CHR(9)', 'CHR(13)', 'CHR(26)', 'CHR(127)', 'CHR(128)', 'CHR(255)'],
    'STRING': ['""', '"a"', '" a b "', '"12"', '"-1.5"', '"TRUE"', '"1/2/2000"', '"line\\ntwo"', '"q\\"q"', "\"it's\"", '"back\\\\slash"', '"// no"', '"x" & CHR(0) & "y"', '"x" & CHR(0) & "z"', 'CHR(0) & ""',
               '"x" & CHR(0)', '"r" & CHR(13)', 'CHR(13) & "r"', '"t" & CHR(9)', '"e" & CHR(128) & CHR(255)', '"end\\n"', '"\\n"', '"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"'],
    'DATE': ['1/1/1', '29/2/2000', '28/2/1900', '31/12/1999', '1/3/2001', '31/12/9999', '30/6/1582'],
    'E': ['ea', 'eb', 'ec'],
}
LINE = {'STRING': [v for v in VALUES['STRING'] if 'n' not in v.replace('line', '').replace('end', '') or '\\n' not in v]}
LINE['STRING'] = [v for v in VALUES['STRING'] if '\\n' not in v]


def pre(t):
    return ('TYPE E = (ea, eb, ec)\nTYPE PT = ^%(t)s\nTYPE R\nDECLARE f : %(t)s\nDECLARE g : INTEGER\nDECLARE h : ARRAY[1:2] OF %(t)s\nENDTYPE\nTYPE N\nDECLARE i : INTEGER\nDECLARE r : R\nENDTYPE\n'
            'DECLARE a, b, m, z : %(t)s\nDECLARE ar, as : ARRAY[0:2] OF %(t)s\nDECLARE m2 : ARRAY[1:2, -1:0] OF %(t)s\nDECLARE r, s : R\nDECLARE n, o : N\nDECLARE ra, rb : ARRAY[1:2] OF R\nDECLARE pt, pu : PT\nDECLARE st : STRING\n'
            'PROCEDURE pv(x : %(t)s)\nz <- x\nENDPROCEDURE\nPROCEDURE pr(BYREF x : %(t)s, y : %(t)s)\nx <- y\nENDPROCEDURE\nPROCEDURE p2(BYREF x : %(t)s, BYREF y : %(t)s)\nCALL pr(y, x)\nENDPROCEDURE\n'
            'FUNCTION id(x : %(t)s) RETURNS %(t)s\nRETURN x\nENDFUNCTION\nFUNCTION lo(x : %(t)s) RETURNS %(t)s\nDECLARE l : %(t)s\nl <- x\nx <- z\nRETURN l\nENDFUNCTION\n'
            'FUNCTION rc(x : %(t)s, k : INTEGER) RETURNS %(t)s\nIF k = 0 THEN\nRETURN x\nENDIF\nRETURN rc(x, k - 1)\nENDFUNCTION\nPROCEDURE vr(x : R)\nz <- x.f\nx.f <- a\nENDPROCEDURE\nPROCEDURE br(BYREF x : R)\nx.f <- x.h[2]\nENDPROCEDURE\n'
            'FUNCTION fr(x : R) RETURNS R\nRETURN x\nENDFUNCTION\nFUNCTION fp(x : PT) RETURNS PT\nRETURN x\nENDFUNCTION\n') % dict(t=t)


# route: statements taking %s (source) to %d (destination); the families it belongs to
ROUTES = [
    ('A', '', '%d <- %s'),
    ('A', '', 'm <- %s\n%d <- m'),
    ('U', '', 'und%k <- %s\n%d <- und%k'),
    ('Y', '', 'ar[1] <- %s\n%d <- ar[1]'),
    ('Y', '', 'ar[2] <- %s\nas <- ar\n%d <- as[2]'),
    ('Y', '', 'm2[2, -1] <- %s\nm2[1, 0] <- m2[2, -1]\n%d <- m2[1, 0]'),
    ('R', '', 'r.f <- %s\n%d <- r.f'),
    ('R', '', 'r.f <- %s\ns <- r\n%d <- s.f'),
    ('RY', '', 'r.h[2] <- %s\ns <- r\n%d <- s.h[2]'),
    ('R', '', 'n.r.f <- %s\no <- n\ns <- o.r\n%d <- s.f'),
    ('RY', '', 'r.f <- %s\nra[2] <- r\nrb <- ra\n%d <- rb[2].f'),
    ('P', '', 'pt <- ^%s\n%d <- pt^'),
    ('P', '', 'pt <- ^%d\npt^ <- %s'),
    ('P', '', 'pt <- ^%s\npu <- pt\n%d <- pu^'),
    ('PY', '', 'pt <- ^ar[0]\npt^ <- %s\n%d <- ar[0]'),
    ('PR', '', 'pt <- ^n.r.f\npt^ <- %s\n%d <- n.r.f'),
    ('PC', '', 'pt <- ^%s\npu <- fp(pt)\n%d <- pu^'),
    ('C', '', 'CALL pv(%s)\n%d <- z'),
    ('C', '', 'CALL pr(%d, %s)'),
    ('C', '', 'CALL p2(%s, %d)'),
    ('CY', '', 'CALL pr(ar[2], %s)\nCALL pr(%d, ar[2])'),
    ('CR', '', 'CALL pr(r.f, %s)\nCALL pr(%d, r.f)'),
    ('C', '', '%d <- id(%s)'),
    ('C', '', '%d <- lo(%s)'),
    ('C', '', '%d <- rc(id(%s), 2)'),
    ('CR', '', 'r.f <- %s\nCALL vr(r)\n%d <- z'),
    ('CR', '', 'r.h[2] <- %s\nCALL br(r)\n%d <- r.f'),
    ('CR', '', 's.f <- %s\nr <- fr(s)\n%d <- r.f'),
    ('F', '', 'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", %s\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nSEEK "f", 1\nGETRECORD "f", %d\nCLOSEFILE "f"'),
    ('FR', '', 'r.f <- %s\nr.g <- 5\nOPENFILE "g" FOR RANDOM\nSEEK "g", 1\nPUTRECORD "g", r\nSEEK "g", 1\nGETRECORD "g", s\nCLOSEFILE "g"\n%d <- s.f'),
    ('FY', '', 'ar[1] <- %s\nOPENFILE "h" FOR RANDOM\nPUTRECORD "h", ar\nPUTRECORD "h", ar\nSEEK "h", 2\nGETRECORD "h", as\nCLOSEFILE "h"\n%d <- as[1]'),
    ('L', '', 'CASE OF %s\n%s: %d <- %s\nOTHERWISE: OUTPUT "none"\nENDCASE'),
    ('L', '', 'IF TRUE THEN\nREPEAT\n%d <- %s\nUNTIL TRUE\nENDIF'),
    ('L', 'INTEGER', 'FOR fi%k <- %s TO %s STEP 3\n%d <- fi%k\nBREAK\nNEXT fi%k'),
    ('O', 'INTEGER', '%d <- %s + 0'), ('O', 'INTEGER', '%d <- %s * 1'), ('O', 'INTEGER', '%d <- %s DIV 1'), ('O', 'INTEGER', '%d <- - (-%s)'), ('O', 'INTEGER', '%d <- 0 - (0 - %s)'), ('O', 'INTEGER', '%d <- (%s DIV 7) * 7 + (%s MOD 7)'),
    ('O', 'INTEGER', 'm <- MOD(%s, 10)\n%d <- DIV(%s, 10) * 10 + m'), ('K', 'INTEGER', 'st <- STRING(%s)\n%d <- INTEGER(st)'), ('K', 'INTEGER', '%d <- INTEGER("" & %s)'), ('K', 'INTEGER', '%d <- INTEGER(INTEGER(%s))'),
    ('T', 'INTEGER', 'OPENFILE "t" FOR WRITE\nWRITEFILE "t", %s\nCLOSEFILE "t"\nOPENFILE "t" FOR READ\nREADFILE "t", st\nCLOSEFILE "t"\n%d <- INTEGER(st)'),
    ('O', 'REAL', '%d <- %s + 0'), ('O', 'REAL', '%d <- %s * 1'), ('O', 'REAL', '%d <- %s / 1'), ('O', 'REAL', '%d <- - (-%s)'), ('K', 'REAL', '%d <- REAL(%s)'),
    ('O', 'BOOLEAN', '%d <- NOT (NOT %s)'), ('O', 'BOOLEAN', '%d <- %s AND TRUE'), ('O', 'BOOLEAN', '%d <- FALSE OR %s'), ('O', 'BOOLEAN', '%d <- %s = TRUE'), ('K', 'BOOLEAN', '%d <- BOOLEAN(INTEGER(%s))'),
    ('O', 'CHAR', '%d <- CHR(ASC(%s))'), ('A', 'CHAR', 'st <- %s & ""\n%d <- st'), ('A', 'CHAR', 'st <- %s\n%d <- st'), ('B', 'CHAR', 'st <- "<" & %s & ">"\n%d <- MID(st, 2, 1)'), ('C', 'CHAR', 'CALL pv(%s & "")\n%d <- z'), ('K', 'CHAR', '%d <- CHAR(%s)'),
    ('O', 'STRING', '%d <- "" & %s'), ('O', 'STRING', '%d <- %s & ""'), ('B', 'STRING', '%d <- LEFT(%s, LENGTH(%s))'), ('B', 'STRING', '%d <- RIGHT("<" & %s, LENGTH(%s))'), ('B', 'STRING', '%d <- MID("<" & %s & ">", 2, LENGTH(%s))'),
    ('K', 'STRING', '%d <- STRING(%s)'), ('B', 'STRING', 'st <- ""\nFOR fi%k <- 1 TO LENGTH(%s)\nst <- st & CHR(ASC(MID(%s, fi%k, 1)))\nNEXT fi%k\n%d <- st'),
    ('T', 'STRING', 'OPENFILE "t" FOR WRITE\nWRITEFILE "t", %s\nCLOSEFILE "t"\nOPENFILE "t" FOR READ\nREADFILE "t", %d\nOUTPUT EOF("t")\nCLOSEFILE "t"'),
    ('T', 'STRING', 'OPENFILE "u" FOR WRITE\nWRITEFILE "u", "first"\nCLOSEFILE "u"\nOPENFILE "u" FOR APPEND\nWRITEFILE "u", %s\nWRITEFILE "u", "last"\nCLOSEFILE "u"\nOPENFILE "u" FOR READ\nREADFILE "u", st\nREADFILE "u", %d\nREADFILE "u", st\nOUTPUT st, EOF("u")\nCLOSEFILE "u"'),
    ('D', 'DATE', '%d <- SETDATE(DAY(%s), MONTH(%s), YEAR(%s))'),
    ('O', 'E', '%d <- %s + 0'), ('O', 'E', '%d <- (%s + 3) - 3'), ('O', 'E', '%d <- %s - 5\n%d <- %d + 5'),
]
OWN = {'C02': 'OU', 'C03': 'L', 'C04': 'C', 'C05': 'AU', 'C06': 'Y', 'C07': 'R', 'C08': 'P', 'C13': 'F', 'C15': 'T', 'C17': 'BK', 'C18': 'D', 'C19': 'E'}


def step(code, s, d, k):
    return code.replace('%s', s).replace('%d', d).replace('%k', str(k)) + '\n'


def show(t, v):
    if t == 'STRING':
        return 'OUTPUT LENGTH(%s), "<", %s, ">", %s = a, a = %s, %s <> a\n' % (v, v, v, v, v)
    if t == 'CHAR':
        return 'OUTPUT "<", %s, ">", %s = a, a <> %s\n' % (v, v, v)
    if t == 'REAL':
        return 'OUTPUT %s, " ", %s = a, %s < a, " ", NUM_TO_STR(%s)\n' % (v, v, v, v)
    if t in ('INTEGER', 'DATE'):
        return 'OUTPUT %s, " ", %s = a, %s < a, %s >= a\n' % (v, v, v, v)
    return 'OUTPUT %s, " ", %s = a\n' % (v, v)


def program(t, routes, values, declare=False):
    """b starts as another value; the source keeps its value."""
    p = pre(t)
    for k, v in enumerate(values):
        other = values[(k + 1) % len(values)]
        p += 'a <- %s\nb <- %s\nz <- b\nm <- b\n' % (v, other)
        if len(routes) == 1:
            p += step(routes[0], 'a', 'b', k)
        else:
            p += 'DECLARE t%d : %s\n' % (k, t) + step(routes[0], 'a', 't%d' % k, k) + step(routes[1], 't%d' % k, 'b', k) + show(t, 't%d' % k)
            if len(routes) == 3:
                p += 'DECLARE v%d : %s\nv%d <- b\n' % (k, t, k) + step(routes[2], 'v%d' % k, 'b', k)
        p += show(t, 'b') + 'b <- %s\n' % other + show(t, 'b') + 'OUTPUT a\n'
    return p


def carried(ctx, t, routes, values, kw):
    src = program(t, routes, values)
    x, r = ctx.diff(src, model_kw=dict(steps=60000), check_files='OPENFILE' in src, **kw)
    ctx.observe((t, tuple(routes), r.out))


def session_of(ctx, t, routes, values):
    import c12
    es = c12.split(program(t, routes, values))
    if es is not None:
        ctx.repl(session(es), model_kw=dict(steps=60000))


def belongs(prop, fam, t):
    if prop == 'C19':
        return t == 'E'
    if prop == 'C18':
        return t == 'DATE'
    own = OWN.get(prop, '')
    return not own or any(f in own for f in fam)


def cases(tier, prop, kw=None, repl=False):
    q = tier == 'quick'
    for t, vs in VALUES.items():
        rs = [(f, c) for f, only, c in ROUTES if only in ('', t)]
        for n in (1, 2) if q or prop in ('C12', 'C20') else (1, 2, 3):
            if n == 3 and t in ('BOOLEAN', 'CHAR', 'DATE'):
                continue
            for ch in itertools.product(rs, repeat=n):
                if not any(belongs(prop, f, t) for f, c in ch):
                    continue
                if n == 3 and sum(belongs(prop, f, t) for f, c in ch) < 2:
                    continue
                v = vs
                if any('ASC(' in c for f, c in ch):
                    v = [x for x in v if 'CHR(128)' not in x and 'CHR(255)' not in x]
                if t == 'STRING' and any(f == 'T' for f, c in ch):
                    v = LINE['STRING']
                if repl:
                    yield (session_of, t, [c for f, c in ch], v[:6] if q else v)
                else:
                    yield (carried, t, [c for f, c in ch], v, kw or {})
