"""C13: records written to a random file read back exactly."""
import itertools

from engine import Mismatch
from gen import batch, chain, chunks, lit
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='all 256 character codes at every position of every record layout; all strings up to the length bound over an adversarial alphabet, alone, in pairs, in records and arrays, as '
         'first, inner and last record; INTEGER boundaries; REAL mantissa patterns times every binary exponent of the normal range; all record shapes up to 3 fields and 3 nesting '
         'levels from an alphabet of field kinds; every (stored type, reading type) pair, and every pair of record shapes of up to two fields (three over INTEGER, REAL, STRING) whose types have the same name; each read back in the same session, after CLOSEFILE/OPENFILE and by a second '
         'process, and compared leaf by leaf with the reference model',
    assumptions=['the bytes of the data file themselves are not asserted, only what a later read returns'])

TYPES = 'TYPE E = (ea, eb, ec)\nTYPE F = (fa, fb)\nTYPE P = ^INTEGER\n'


def readers(nrec, items):
    """Procedure that reads records 1..n into fresh variables and shows every leaf.
    items: per record (type, dims or None, leaves)."""
    out = []
    for k, (ty, dims, leaves) in enumerate(items):
        out.append('PROCEDURE rd%d()' % k)
        out.append('DECLARE v : %s' % (('ARRAY[%s] OF %s' % (dims, ty)) if dims else ty))
        out.append('SEEK "f", %d' % (k + 1))
        out.append('GETRECORD "f", v')
        for path, t in leaves:
            p = 'v' + path
            out.append('OUTPUT %d, "%s", %s' % (k, path, {'CHAR': 'p, "|"', 'STRING': 'LENGTH(p), "<", p, ">"'}.get(t, 'p').replace('p', p)))
        out.append('ENDPROCEDURE')
    out.append('PROCEDURE readall()')
    for k in list(range(nrec)) + list(reversed(range(nrec))):
        out.append('CALL rd%d()' % k)
    out.append('ENDPROCEDURE')
    return '\n'.join(out) + '\n'


def roundtrip(ctx, types, items, writes, files=2, kw=None):
    """writes: statements that fill variables and PUT record k. Three ways of reading back."""
    rd = types + readers(len(items), items)
    first = rd + 'OPENFILE "f" FOR RANDOM\n' + writes + 'CALL readall()\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nCALL readall()\nCLOSEFILE "f"\nOUTPUT "done"\n'
    second = rd + 'OPENFILE "f" FOR RANDOM\nCALL readall()\nSEEK "f", %d\nSEEK "f", 1\nCALL rd0()\nCLOSEFILE "f"\n' % (len(items) + 1)
    chain(ctx, [first, second] + ([second] if files > 2 else []), model_kw=dict(steps=100000), **(kw or {}))


# ---- characters
def char_lit(c):
    if c == '\n':
        return "'\\n'"
    if c == '\t':
        return "'\\t'"
    if c in "'\\":
        return "'\\%s'" % c
    if c < ' ' or c == '\x7f':
        return 'CHR(%d)' % ord(c)
    return "'%s'" % c


CR = 'TYPE C1\nDECLARE c : CHAR\nENDTYPE\nTYPE C2\nDECLARE c : CHAR\nDECLARE n : INTEGER\nENDTYPE\nTYPE C3\nDECLARE n : INTEGER\nDECLARE c : CHAR\nENDTYPE\nTYPE C4\nDECLARE n : INTEGER\nDECLARE c : CHAR\nDECLARE s : STRING\nENDTYPE\n' \
     'TYPE C5\nDECLARE c : CHAR\nDECLARE d : CHAR\nDECLARE e : CHAR\nENDTYPE\nTYPE C6\nDECLARE r : C5\nDECLARE a : ARRAY[1:2] OF CHAR\nDECLARE c : CHAR\nENDTYPE\nTYPE C7\nDECLARE s : STRING\nDECLARE c : CHAR\nDECLARE x : REAL\nENDTYPE\n' \
     'TYPE C8\nDECLARE a : ARRAY[1:2] OF C2\nDECLARE c : CHAR\nDECLARE d : DATE\nENDTYPE\n'
I, S, C = 'INTEGER', 'STRING', 'CHAR'
CITEMS = [('CHAR', None, [('', C)]), ('C1', None, [('.c', C)]), ('C2', None, [('.c', C), ('.n', I)]), ('C3', None, [('.n', I), ('.c', C)]), ('C4', None, [('.n', I), ('.c', C), ('.s', S)]),
          ('C5', None, [('.c', C), ('.d', C), ('.e', C)]), ('C6', None, [('.r.c', C), ('.r.d', C), ('.r.e', C), ('.a[1]', C), ('.a[2]', C), ('.c', C)]), ('CHAR', '1:3', [('[1]', C), ('[2]', C), ('[3]', C)]),
          ('C7', None, [('.s', S), ('.c', C), ('.x', 'REAL')]), ('C8', None, [('.a[1].c', C), ('.a[1].n', I), ('.a[2].c', C), ('.a[2].n', I), ('.c', C), ('.d', 'DATE')]), ('CHAR', '0:0', [('[0]', C)]), ('CHAR', None, [('', C)])]


def chars(ctx, codes):
    for code in codes:
        c = char_lit(chr(code))
        d = char_lit(chr((code * 7 + 13) % 256))
        w = ['ch <- %s' % c, 'ch2 <- %s' % d]
        vals = {I: '5', S: 'ch & "q" & ch', C: 'ch', 'REAL': '2.5', 'DATE': '1/2/2003'}
        for k, (ty, dims, leaves) in enumerate(CITEMS):
            w.append('DECLARE w%d : %s' % (k, ('ARRAY[%s] OF %s' % (dims, ty)) if dims else ty))
            for j, (p, t) in enumerate(leaves):
                w.append('w%d%s <- %s' % (k, p, 'ch2' if t == C and j % 2 and code % 3 == 0 else vals[t]))
            w.append('SEEK "f", %d' % (k + 1))
            w.append('PUTRECORD "f", w%d' % k)
        roundtrip(ctx, TYPES + CR, CITEMS, '\n'.join(w) + '\n')


# ---- strings
SR = 'TYPE S1\nDECLARE s : STRING\nENDTYPE\nTYPE S2\nDECLARE s : STRING\nDECLARE t : STRING\nDECLARE c : CHAR\nENDTYPE\nTYPE S3\nDECLARE n : INTEGER\nDECLARE a : ARRAY[1:2] OF STRING\nDECLARE r : S1\nENDTYPE\n'
SITEMS = [('STRING', None, [('', S)]), ('S2', None, [('.s', S), ('.t', S), ('.c', C)]), ('STRING', '1:2', [('[1]', S), ('[2]', S)]), ('S3', None, [('.n', I), ('.a[1]', S), ('.a[2]', S), ('.r.s', S)]),
          ('INTEGER', None, [('', I)]), ('S1', None, [('.s', S)]), ('STRING', None, [('', S)])]


def strings(ctx, pairs):
    """Records with both strings in every place; the first and last records are one of them."""
    for a, b in pairs:
        w = ['sa <- %s' % lit(a), 'sb <- %s' % lit(b)]
        k = 0
        flip = 0
        for k, (ty, dims, leaves) in enumerate(SITEMS):
            w.append('DECLARE w%d : %s' % (k, ('ARRAY[%s] OF %s' % (dims, ty)) if dims else ty))
            for p, t in leaves:
                v = {I: '-12', C: "'#'"}.get(t)
                if v is None:
                    v = 'sb' if flip else 'sa'
                    flip = not flip
                w.append('w%d%s <- %s' % (k, p, v))
            w.append('SEEK "f", %d' % (k + 1))
            w.append('PUTRECORD "f", w%d' % k)
        roundtrip(ctx, TYPES + SR, SITEMS, '\n'.join(w) + '\n')


def single(ctx, strs):
    """Files with the single record s, and with s as records 1, 2 and last, all in one directory."""
    w = ['PROCEDURE show(k : INTEGER, n : STRING)\nDECLARE v : STRING\nFOR i <- 1 TO k\nv <- "old"\nSEEK n, i\nGETRECORD n, v\nOUTPUT i, LENGTH(v), "<", v, ">"\nNEXT i\nENDPROCEDURE\nDECLARE s : STRING\n']
    rd = [w[0]]
    for j, s in enumerate(strs):
        for k in (1, 3):
            n = '"s%d_%d"' % (j, k)
            w.append('OPENFILE %s FOR RANDOM\ns <- %s\n' % (n, lit(s)))
            for i in range(k):
                w.append('SEEK %s, %d\nPUTRECORD %s, s\n' % (n, i + 1, n))
            w.append('CALL show(%d, %s)\nCLOSEFILE %s\nOPENFILE %s FOR RANDOM\nCALL show(%d, %s)\n' % (k, n, n, n, k, n))
            if j % 2:
                w.append('SEEK %s, %d\nPUTRECORD %s, s\n' % (n, k + 1, n))      # appended after reopening, written at exit
            rd.append('OPENFILE %s FOR RANDOM\nCALL show(%d, %s)\nSEEK %s, %d\n' % (n, k + j % 2, n, n, k + 1 + j % 2))
    chain(ctx, [''.join(w), ''.join(rd), ''.join(rd)], model_kw=dict(steps=100000))


def strs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


# ---- numbers
INTS = sorted({0, 1, -1, 9, 10, -10, 99, 127, 128, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 53) + 1, -(1 << 53) - 1, (1 << 63) - 1, -(1 << 63) + 1, (1 << 62) + 1, 10 ** 18, 123456789012345678}
              | {(1 << k) + d for k in range(2, 63) for d in (-1, 0, 1)} | {-(1 << k) + d for k in range(2, 63, 3) for d in (-1, 0, 1)} | set(range(-40, 41)))


def ints(ctx, vals):
    g = 'DECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE x, y : INTEGER\nTYPE R\nDECLARE p : INTEGER\nDECLARE q : ARRAY[1:2] OF INTEGER\nENDTYPE\nDECLARE r, t : R\nOPENFILE "f" FOR RANDOM\n'
    w, rd, n = '', '', 1
    for v in vals:
        w += 'x <- %d\nSEEK "f", %d\nPUTRECORD "f", x\nr.p <- x\nr.q[1] <- -x\nr.q[2] <- x\nSEEK "f", %d\nPUTRECORD "f", r\na[1] <- x\na[2] <- 7\na[3] <- x\nSEEK "f", %d\nPUTRECORD "f", a\n' % (v, n, n + 1, n + 2)
        rd += 'SEEK "f", %d\nGETRECORD "f", y\nSEEK "f", %d\nGETRECORD "f", t\nSEEK "f", %d\nGETRECORD "f", a\nOUTPUT y, " ", t.p, " ", t.q[1], " ", t.q[2], " ", a[1], " ", a[2], " ", a[3], " ", y = %d\n' % (n, n + 1, n + 2, v)
        n += 3
    w += 'mi <- -9223372036854775807\nmi <- mi - 1\nSEEK "f", %d\nPUTRECORD "f", mi\n' % n
    rd += 'SEEK "f", %d\nGETRECORD "f", y\nOUTPUT y\n' % n
    chain(ctx, [g + w + rd + 'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n' + rd, g + rd], model_kw=dict(steps=100000))


def reals(ctx, mant, down, lo, hi):
    """x = mant * 2^k for k in lo..hi (going down when `down`), as scalar, field and array element."""
    pre = 'TYPE R\nDECLARE p : REAL\nDECLARE q : ARRAY[1:2] OF REAL\nENDTYPE\nDECLARE r : R\nDECLARE x, y : REAL\nDECLARE n, bad : INTEGER\n'
    start = 'n <- 0\nbad <- 0\nx <- %s\nFOR i <- 1 TO %d\nx <- x %s 2.0\nNEXT i\n' % (mant, lo, '/' if down else '*')
    loop = 'FOR i <- %d TO %d\n%%s\nx <- x %s 2.0\nNEXT i\n' % (lo, hi, '/' if down else '*')
    write = 'n <- n + 1\nSEEK "f", n\nPUTRECORD "f", x\nr.p <- x\nr.q[1] <- -x\nr.q[2] <- x\nn <- n + 1\nSEEK "f", n\nPUTRECORD "f", r'
    read = 'n <- n + 1\nSEEK "f", n\ny <- 1.5\nGETRECORD "f", y\nIF x <> y THEN\nbad <- bad + 1\nOUTPUT "bad", i\nENDIF\nn <- n + 1\nSEEK "f", n\nr.p <- 0.0\nr.q[1] <- 0.0\nr.q[2] <- 0.0\nGETRECORD "f", r\n' \
           'IF x <> r.p OR -x <> r.q[1] OR x <> r.q[2] THEN\nbad <- bad + 1\nOUTPUT "badr", i\nENDIF'
    w = pre + 'OPENFILE "f" FOR RANDOM\n' + start + loop % write
    rd = start + loop % read + 'OUTPUT "n", n, " ", bad, " ", y = x\n'
    chain(ctx, [w + rd + 'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n' + rd, pre + 'OPENFILE "f" FOR RANDOM\n' + rd], model_kw=dict(steps=400000), steps=2000000)


MANT = ['1.0', '1.5', '1.1', '1.3333333333333333', '1.9999999999999998', '1.0000000000000002', '1.7976931348623157', '3.141592653589793', '1.2345678901234567', '0.3', '1.6180339887498949', '1.0000000000000004', '1.4142135623730951']
DECS = ['0.1', '0.2', '0.7', '123456.789', '1234567890.0987654', '0.000001', '0.0000001', '99999999999999.99', '4503599627370497.5', '9007199254740993.0', '0.30000000000000004', '2.220446049250313', '5.0', '100.0', '1000000000000000000000.0', '0.1234567890123456']


def decimals(ctx):
    pre = 'DECLARE x, y : REAL\n'
    w = ''.join('x <- %s\nSEEK "f", %d\nPUTRECORD "f", x\nx <- -%s\nSEEK "f", %d\nPUTRECORD "f", x\n' % (d, 2 * k + 1, d, 2 * k + 2) for k, d in enumerate(DECS))
    rd = ''.join('SEEK "f", %d\nGETRECORD "f", y\nOUTPUT y, " ", y = %s, " ", y - %s = 0.0\nSEEK "f", %d\nGETRECORD "f", y\nOUTPUT y, " ", y = -%s\n' % (2 * k + 1, d, d, 2 * k + 2, d) for k, d in enumerate(DECS))
    chain(ctx, [pre + 'OPENFILE "f" FOR RANDOM\n' + w + rd + 'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n' + rd, pre + 'OPENFILE "f" FOR RANDOM\n' + rd])


def dates(ctx, ds):
    pre = 'DECLARE d, e : DATE\nTYPE R\nDECLARE d : DATE\nDECLARE c : CHAR\nDECLARE e : DATE\nENDTYPE\nDECLARE r : R\nOPENFILE "f" FOR RANDOM\n'
    w = ''.join('d <- %s\nSEEK "f", %d\nPUTRECORD "f", d\nr.d <- d\nr.e <- d\nSEEK "f", %d\nPUTRECORD "f", r\n' % (x, 2 * k + 1, 2 * k + 2) for k, x in enumerate(ds))
    rd = ''.join('SEEK "f", %d\ne <- 5/5/1955\nGETRECORD "f", e\nSEEK "f", %d\nGETRECORD "f", r\nOUTPUT e, " ", e = %s, " ", r.d, " ", r.e\n' % (2 * k + 1, 2 * k + 2, x) for k, x in enumerate(ds))
    chain(ctx, [pre + w + rd + 'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n' + rd, pre + rd])


# ---- shapes
A = 'ARRAY'
IN1 = ('rec', ('INTEGER', 'STRING'))
IN2 = ('rec', ((A, ('1:2',), 'CHAR'), 'REAL'))
IN3 = ('rec', (('rec', ('STRING', (A, ('1:2',), 'INTEGER'))), 'CHAR'))
KINDS = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E', (A, ('1:2',), 'INTEGER'), (A, ('0:1', '2:3'), 'STRING'), (A, ('1:2',), 'CHAR'), IN1, (A, ('1:2',), IN1), IN2, IN3]
QKINDS = ['REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E', (A, ('1:2',), 'INTEGER'), (A, ('0:1', '2:3'), 'STRING'), IN1, (A, ('1:2',), IN2), IN3]
VALUES = {'INTEGER': ['-5', '0', '77', '9223372036854775807'], 'REAL': ['0.1', '-2.5', '1000000.0'], 'BOOLEAN': ['TRUE', 'FALSE'], 'CHAR': ["'\\n'", "'#'", "' '", "'x'", "'\\t'"],
          'STRING': ['"\\n#"', '""', '" "', '"a b"', '"#\\n\\n"', '"12 STRING 3"'], 'DATE': ['29/2/2000', '1/1/1', '31/12/9999'], 'E': ['eb', 'ea', 'ec']}


def tyname(f, defs):
    if isinstance(f, str):
        return f
    if f[0] == A:
        return 'ARRAY[%s] OF %s' % (', '.join(f[1]), tyname(f[2], defs))
    body = ['DECLARE f%d : %s' % (i, tyname(x, defs)) for i, x in enumerate(f[1])]
    n = 'T%d' % len(defs)
    defs.append('TYPE %s\n%s\nENDTYPE\n' % (n, '\n'.join(body)))
    return n


def leaves(f, p=''):
    if isinstance(f, str):
        return [(p, f)]
    if f[0] == A:
        rs = [range(int(d.split(':')[0]), int(d.split(':')[1]) + 1) for d in f[1]]
        return [x for ix in itertools.product(*rs) for x in leaves(f[2], p + '[%s]' % ', '.join(map(str, ix)))]
    return [x for i, g in enumerate(f[1]) for x in leaves(g, '%s.f%d' % (p, i))]


def shape(ctx, shapes, salt):
    defs, items, w = [], [], []
    for k, f in enumerate(shapes):
        t = tyname(f, defs)
        ls = leaves(f)
        d = None
        if t.startswith('ARRAY'):
            d = t[6:t.index(']')]
            t2 = t[t.index(' OF ') + 4:]
        else:
            t2 = t
        items.append((t2, d, ls))
        w.append('DECLARE w%d : %s' % (k, t))
        for j, (p, ty) in enumerate(ls):
            vs = VALUES[ty]
            w.append('w%d%s <- %s' % (k, p, vs[(j * 5 + k + salt) % len(vs)]))
        w.append('SEEK "f", %d' % (k + 1))
        w.append('PUTRECORD "f", w%d' % k)
    roundtrip(ctx, TYPES + ''.join(defs), items, '\n'.join(w) + '\n')


def shapes(kinds, n):
    for k in range(1, n + 1):
        for c in itertools.product(kinds, repeat=k):
            yield ('rec', c)


# ---- defaults of every type, empty records
def defaults(ctx):
    ks = [k for k in KINDS] + [(A, ('1:3',), 'BOOLEAN'), (A, ('1:1',), 'E'), (A, ('1:2',), 'DATE'), (A, ('-1:0',), IN3)]
    defs, w, rd, g = [], '', '', ''
    for k, f in enumerate(ks):
        g += 'DECLARE w%d, v%d : %s\n' % (k, k, tyname(f, defs))
        w += 'SEEK "f", %d\nPUTRECORD "f", w%d\n' % (k + 1, k)
        rd += 'SEEK "f", %d\nGETRECORD "f", v%d\n' % (k + 1, k) + ''.join('OUTPUT "%s", v%d%s\n' % (p, k, p) for p, t in leaves(f) if t != 'DATE')
    pre = TYPES + ''.join(defs) + g + 'OPENFILE "f" FOR RANDOM\n'
    chain(ctx, [pre + w + rd + 'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n' + rd, pre + rd])


# ---- stored type x reading type
MT = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'E', 'F', 'R1', 'R2', 'R3', 'RN']
MDIM = [None, '1:1', '1:2', '1:3', '0:1, 1:2']
MPRE = 'TYPE E = (ea, eb, ec)\nTYPE F = (fa, fb, fc)\nTYPE R1\nDECLARE n : INTEGER\nENDTYPE\nTYPE R2\nDECLARE n : INTEGER\nENDTYPE\nTYPE R3\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE RN\nDECLARE r : R1\nENDTYPE\n'
MV = {'INTEGER': ('5', '6'), 'REAL': ('2.5', '3.5'), 'BOOLEAN': ('TRUE', 'TRUE'), 'CHAR': ("'a'", "'b'"), 'STRING': ('"st"', '"5"'), 'DATE': ('1/2/2003', '4/5/2006'), 'E': ('eb', 'ec'), 'F': ('fb', 'fc'),
      'R1': ('.n', '5', '6'), 'R2': ('.n', '7', '8'), 'R3': ('.s', '"r"', '"q"'), 'RN': ('.r.n', '9', '10')}


def decl(n, t, d):
    return 'DECLARE %s : %s' % (n, ('ARRAY[%s] OF %s' % (d, t)) if d else t)


def cells(d):
    if not d:
        return ['']
    rs = [range(int(x.split(':')[0]), int(x.split(':')[1]) + 1) for x in d.split(',')]
    return ['[%s]' % ', '.join(map(str, ix)) for ix in itertools.product(*rs)]


def setv(n, t, d, which):
    v = MV[t]
    p, val = ('', v[which]) if len(v) == 2 else (v[0], v[which + 1])
    return ['%s%s%s <- %s' % (n, c, p, val) for c in cells(d)]


def showv(n, t, d):
    p = MV[t][0] if len(MV[t]) == 3 else ''
    return 'OUTPUT ' + ', ",", '.join('%s%s%s' % (n, c, p) for c in cells(d))


def mismatch(ctx, st, sd, how):
    """A record of one type is read into variables of every type."""
    rd = ['OPENFILE "f" FOR RANDOM']
    names = []
    k = 0
    for t in MT:
        for d in MDIM:
            n = 'v%d' % k
            k += 1
            names.append((n, t, d))
    pre = MPRE.strip('\n').split('\n')
    pre = []
    cur = []
    for l in MPRE.strip('\n').split('\n'):
        cur.append(l)
        if l == 'ENDTYPE' or (l.startswith('TYPE') and '=' in l):
            pre.append('\n'.join(cur))
            cur = []
    put = [decl('w', st, sd)] + setv('w', st, sd, 1) + ['OPENFILE "f" FOR RANDOM', 'SEEK "f", 1', 'PUTRECORD "f", w']
    if how == 'same':
        head = pre + put
    else:
        head = pre + ['OPENFILE "f" FOR RANDOM']
        chain0 = pre + put + (['CLOSEFILE "f"'] if how == 'reopen' else [])
    reads = []
    for n, t, d in names:
        reads.append([decl(n, t, d)] + setv(n, t, d, 0) + ['SEEK "f", 1', 'GETRECORD "f", %s' % n, showv(n, t, d)])
    for c in chunks(reads, 12):
        flat = [x for e in c for x in e]
        if how == 'same':
            runs = [head + flat]
        else:
            runs = [chain0, head + flat]
        o = chain(ctx, runs)
        if o[-1][0] is None:
            for e in c:
                chain(ctx, runs[:-1] + [head + e])


NK = {'n': ('INTEGER', '12'), 'x': ('REAL', '-0.5'), 's': ('STRING', '"t 9"'), 'c': ('CHAR', "'k'"), 'b': ('BOOLEAN', 'TRUE'), 'd': ('DATE', '3/4/2005'), 'e': ('E', 'eb'),
      'f': ('F', 'fb'), 'q': ('Q', None), 'a': ('ARRAY[1:2] OF INTEGER', None), 'r': ('ARRAY[1:2] OF REAL', None), 'A': ('ARRAY[1:3] OF INTEGER', None)}
NQ = ['TYPE E = (ea, eb, ec)', 'TYPE F = (fa, fb)', 'TYPE Q\nDECLARE m : INTEGER\nDECLARE t : STRING\nENDTYPE']


def named(kinds, write):
    """A procedure with a record type R of its own that writes or reads record 1."""
    l = ['PROCEDURE %s%s()' % ('w' if write else 'g', kinds), 'TYPE R'] + ['DECLARE f%d : %s' % (i, NK[k][0]) for i, k in enumerate(kinds)] + ['ENDTYPE', 'DECLARE v : R']
    for i, k in enumerate(kinds):
        parts = [('.m', '3'), ('.t', '"u"')] if k == 'q' else [('[1]', '4'), ('[2]', '-5')] if k in 'arA' else [('', NK[k][1])]
        if write:
            l += ['v.f%d%s <- %s' % (i, p, x) for p, x in parts]
        else:
            l += ['OUTPUT v.f%d%s' % (i, p) for p, x in parts]
    at = ['SEEK "f", 1', ('PUTRECORD' if write else 'GETRECORD') + ' "f", v']
    if write:
        l += at
    else:
        k = next(i for i, x in enumerate(l) if x == 'DECLARE v : R') + 1
        l = l[:k] + at + l[k:]
    return '\n'.join(l + ['ENDPROCEDURE'])


def samename(ctx, st, others, reopen):
    """A record of a type R is read into variables of other types that are also called R."""
    pre = NQ + [named(st, True), 'OPENFILE "f" FOR RANDOM', 'CALL w' + st] + (['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM'] if reopen else [])
    batch(ctx, pre, [[named(o, False), 'CALL g' + o] for o in others])


BYTES = ''.join(chr(i) for i in range(256))


def cases(tier):
    yield from scale.cases(tier, 'C13')
    yield from transport.cases(tier, 'C13')
    yield from rerun.cases(tier, 'C13')
    yield from merge.cases(tier, 'C13')
    quick = tier == 'quick'
    kinds = [''.join(k) for n in (1, 2) for k in itertools.product(NK, repeat=n)] + [''.join(k) for k in itertools.product('nxs', repeat=3)]
    for k, st in enumerate(kinds):
        # pairs with the same kinds of fields and two types of one shape are left to the model's "not specified"
        yield (samename, st, [o for o in kinds if o == st or sorted(o) != sorted(st)], k % 2 == 0)
    yield (decimals,)
    yield (defaults,)
    for c in chunks(range(256), 1):
        yield (chars, c)
    for c in chunks(strs('\n# 0A"', 5 if quick else 6), 8):
        yield (single, c)
    for c in chunks(strs('\n#\r\t\0\\S1 ', 3 if quick else 5), 8):
        yield (single, c)
    # every byte value in the middle, at the start and at the end of a string
    for c in chunks([x for b in BYTES for x in (b + 'x', 'x' + b, b + b, '\n' + b, b + '\n', b + '#', '\n' + b + '\n')], 8):
        yield (single, c)
    for c in chunks(['x' * k for k in (9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 4095, 4096, 4097)] + ['\n' * k for k in (5, 9, 10, 11, 100)]
                    + ['\n#' * 7, '#\n' * 7, ' ' * 20, '0' * 20, 'STRING 3 abc', 'INTEGER 5', '3 abc', '\nCOMPOSITE R', '\n\n#\n##\n'], 4):
        yield (single, c)
    for c in chunks(itertools.product(list(strs('\n# 0A"', 2)), repeat=2), 2):
        yield (strings, c)
    for c in chunks(INTS, 12):
        yield (ints, c)
    for m in MANT:
        for lo in range(0, 1020, 102):
            yield (reals, m, False, lo, lo + 101)
            yield (reals, m, True, lo, lo + 101)
        yield (reals, m, False, 1019, 1022 if m not in ('3.141592653589793',) else 1021)
    ds = ['1/1/1', '31/12/9999', '29/2/2000', '28/2/1900', '1/3/1900', '29/2/1600', '31/12/1999', '1/1/2000', '30/6/1987', '9/9/99', '10/10/1000', '1/12/32767']
    yield (dates, ds)
    for j in range(4 if quick else 40):
        yield (dates, ['%d/%d/%d' % (1 + (k + j) * 7 % 28, 1 + (k + j) % 12, 1 + (k * 131 + j * 17) % 9999) for k in range(40)])
    for i, c in enumerate(chunks(KINDS, 3)):
        for salt in range(6):
            yield (shape, c, salt)
    for i, c in enumerate(chunks(shapes(KINDS, 2), 4)):
        for salt in range(5 if quick else 30):
            yield (shape, c, i + salt)
    for i, c in enumerate(chunks((s for s in shapes(KINDS, 3) if len(s[1]) == 3), 6)):
        for salt in range(1 if quick else 6):
            yield (shape, c, i + salt)
    for t in MT:
        for d in MDIM:
            for how in ('same', 'reopen', 'exit'):
                yield (mismatch, t, d, how)
    deep = [('rec', (a, b)) for a in shapes(['CHAR', 'STRING', (A, ('1:2',), 'STRING'), IN1], 2) for b in KINDS]
    for i, c in enumerate(chunks([('rec', (x, y)) for x in deep for y in ('CHAR', 'STRING', 'REAL')], 6)):
        yield (shape, c, i)
    if not quick:
        for c in chunks(itertools.product(list(strs('\n# 0', 3)), repeat=2), 2):
            yield (strings, c)
        for i, c in enumerate(chunks((s for s in shapes(QKINDS, 4) if len(s[1]) == 4), 6)):
            yield (shape, c, i)
