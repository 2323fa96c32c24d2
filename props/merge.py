"""Coincident names: programs whose identifiers are all different, run with every pair of identifiers made equal (in the
whole program, or only inside one procedure, function or record type), and with every two such pairs at once. Whatever
resolves a name in the wrong place, or confuses two entities of one name, differs from the model on one of them."""
import itertools
import re

RULE = ('coincident names: programs with distinct identifiers run with every pair of identifiers (and, for the owning property, every two pairs) made '
        'equal, in the whole program or within one procedure, function or type, and with names of built-in functions and their parameters, props/merge.py')

IDENT = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//[^\n]*|[A-Za-z]\w*|[^A-Za-z"\'/]+|.', re.S)
KEY = set('DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT INTEGER REAL BOOLEAN CHAR STRING DATE ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT '
          'BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD '
          'LENGTH LEFT RIGHT MID TO_UPPER TO_LOWER NUM_TO_STR STR_TO_NUM IS_NUM EOF LCASE UCASE ASC CHR DAY MONTH YEAR DAYINDEX SETDATE INT'.split())
EXTRA = ['String', 'x', 'File', 'Program', 'LENGTH', 'INT', 'ASC', 'Char']

# every program: sections separated by blank lines are optional reading aid only
P = {}
P['C04'] = ['''DECLARE ga, gb : INTEGER
ga <- 1
gb <- 2
PROCEDURE pa(BYREF ra : INTEGER, BYVAL va : INTEGER)
DECLARE la : INTEGER
la <- ra + va * 10
ra <- la + 100
va <- 7
CALL pb(ra, la)
OUTPUT ra, ",", va, ",", la, ",", ga
ENDPROCEDURE
PROCEDURE pb(BYREF rb : INTEGER, BYREF rc : INTEGER)
DECLARE lb : INTEGER
lb <- rb - rc
rb <- 50
rc <- 60
gb <- gb + lb
OUTPUT rb, ",", rc, ",", lb, ",", gb
ENDPROCEDURE
FUNCTION fa(vb : INTEGER) RETURNS INTEGER
nb <- vb + ga
ga <- nb
RETURN nb * 2
ENDFUNCTION
CALL pa(ga, gb)
OUTPUT ga, ",", gb
nc <- fa(gb)
OUTPUT nc, ",", ga, ",", gb
OUTPUT fa(fa(3)), ",", ga
''', '''DECLARE arr : ARRAY[1:3] OF INTEGER
DECLARE gx : REAL
arr[2] <- 5
gx <- 1.5
PROCEDURE up(BYREF el : INTEGER, BYVAL am : INTEGER)
DECLARE own : ARRAY[1:2] OF INTEGER
own[1] <- el + am
el <- own[1] * 2
arr[1] <- arr[1] + el
tmp <- el
OUTPUT el, ",", am, ",", own[1], ",", arr[1], ",", tmp
ENDPROCEDURE
FUNCTION rec(nn : INTEGER) RETURNS INTEGER
DECLARE keep : INTEGER
keep <- nn
IF nn > 0 THEN
keep <- keep + rec(nn - 1)
CALL up(keep, nn)
ENDIF
RETURN keep
ENDFUNCTION
FOR it <- 1 TO 2
CALL up(arr[it], it)
NEXT it
OUTPUT rec(2), ",", arr[1], ",", arr[2], ",", gx
FOR jt <- 1 TO 3
OUTPUT arr[jt]
NEXT jt
''', '''PROCEDURE first(BYREF one : STRING, BYVAL two : CHAR)
CALL second(one, 3)
three <- one & two
OUTPUT three
ENDPROCEDURE
PROCEDURE second(BYREF four : STRING, BYVAL five : INTEGER)
IF five > 0 THEN
four <- four & "+"
CALL second(four, five - 1)
ENDIF
OUTPUT four, five
ENDPROCEDURE
FUNCTION third(six : STRING) RETURNS STRING
CALL first(six, "c")
RETURN six
ENDFUNCTION
seven <- "s"
OUTPUT third(seven), "|", seven
CALL first(seven, "d")
OUTPUT seven
eight <- third(seven & "e")
OUTPUT eight
''']
P['C09'] = ['''TYPE pt = ^INTEGER
DECLARE gi, gj : INTEGER
DECLARE gp : pt
PROCEDURE sto(BYREF nr : INTEGER)
gp <- ^nr
gp^ <- gp^ + 1
OUTPUT nr, ",", gp^
ENDPROCEDURE
PROCEDURE mid(BYREF nm : INTEGER, BYVAL vm : INTEGER)
CALL sto(nm)
OUTPUT gp^
nm <- nm + vm
OUTPUT gp^, ",", nm
ENDPROCEDURE
FUNCTION der(vp : pt) RETURNS INTEGER
DECLARE lp : pt
DECLARE li : INTEGER
li <- 9
lp <- vp
lp^ <- lp^ * 2
lp <- ^li
RETURN lp^ + vp^
ENDFUNCTION
gi <- 4
gj <- 5
CALL mid(gi, 3)
OUTPUT gi, ",", gj, ",", gp^
gp <- ^gj
OUTPUT der(gp), ",", gi, ",", gj
CALL mid(gp^, 2)
OUTPUT gi, ",", gj, ",", gp^
''', '''TYPE rt
DECLARE fn : INTEGER
DECLARE fa : ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE pr = ^rt
TYPE pi = ^INTEGER
DECLARE ra, rb : rt
DECLARE qr : pr
DECLARE qi : pi
PROCEDURE setp(BYREF br : rt, BYREF bq : pr)
DECLARE lr : rt
bq <- ^br
lr <- br
lr.fn <- 50
bq^.fn <- bq^.fn + 1
bq^.fa[2] <- lr.fn
qi <- ^br.fa[1]
qi^ <- 8
OUTPUT br.fn, ",", br.fa[1], ",", br.fa[2], ",", lr.fn
ENDPROCEDURE
ra.fn <- 1
rb.fn <- 2
CALL setp(rb, qr)
OUTPUT qr^.fn, ",", qi^, ",", ra.fn, ",", rb.fn
CALL setp(ra, qr)
qr^ <- rb
OUTPUT ra.fn, ",", ra.fa[1], ",", qi^
qi <- ^qr^.fn
qi^ <- 77
OUTPUT ra.fn, ",", rb.fn
''']
P['C07'] = ['''TYPE inner
DECLARE iv : INTEGER
DECLARE ia : ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE outer
DECLARE ov : INTEGER
DECLARE oi : inner
DECLARE oa : ARRAY[1:2] OF inner
ENDTYPE
DECLARE ra, rb : outer
DECLARE sm : inner
DECLARE arr : ARRAY[1:2] OF outer
FUNCTION bump(par : outer) RETURNS outer
DECLARE loc : outer
loc <- par
par.ov <- par.ov + 1
loc.oi.iv <- 40
loc.oa[1] <- par.oi
loc.oa[2].ia[1] <- par.ov
RETURN loc
ENDFUNCTION
ra.ov <- 1
ra.oi.iv <- 2
ra.oi.ia[1] <- 3
rb <- bump(ra)
OUTPUT ra.ov, ra.oi.iv, ra.oi.ia[1], ra.oa[1].iv, ra.oa[2].ia[1]
OUTPUT rb.ov, rb.oi.iv, rb.oi.ia[1], rb.oa[1].iv, rb.oa[2].ia[1]
sm <- rb.oa[1]
sm.iv <- 9
arr[1] <- rb
arr[2] <- arr[1]
arr[1].oi <- sm
OUTPUT arr[1].oi.iv, arr[2].oi.iv, sm.iv, rb.oi.iv
''', '''TYPE ta
DECLARE fa, fb : INTEGER
ENDTYPE
TYPE tb
DECLARE fc : STRING
DECLARE fd : ta
ENDTYPE
PROCEDURE show(BYREF rr : tb, BYVAL nn : INTEGER)
DECLARE ll : ta
ll.fa <- nn
ll.fb <- rr.fd.fa
rr.fd <- ll
rr.fc <- rr.fc & "!"
OUTPUT rr.fc, rr.fd.fa, rr.fd.fb
ENDPROCEDURE
DECLARE va, vb : tb
va.fc <- "a"
va.fd.fa <- 1
vb <- va
CALL show(va, 5)
CALL show(va, 6)
CALL show(vb, 7)
OUTPUT va.fc, va.fd.fb, vb.fc, vb.fd.fb
''']
P['C19'] = ['''TYPE ga = (ea, eb, ec)
DECLARE va : ga
PROCEDURE pa(pv : ga)
TYPE la = (ed, ee)
DECLARE vl : la
vl <- ee
pv <- pv + 1
OUTPUT vl, pv, vl + 1
va <- pv
ENDPROCEDURE
FUNCTION fa(pf : ga) RETURNS ga
TYPE lb = (ef, eg, eh)
DECLARE vm : lb
vm <- ef + 5
OUTPUT vm, ea, pf = eb
RETURN pf - 1
ENDFUNCTION
va <- ec
CALL pa(va)
OUTPUT va
OUTPUT fa(ea), fa(va), va = ea
vn <- eb
OUTPUT vn + 2
CASE OF va
ea: OUTPUT "ea"
eb: OUTPUT "eb"
ec: OUTPUT "ec"
ENDCASE
''', '''TYPE gt = (ga, gb)
TYPE gr
DECLARE fe : gt
DECLARE fn : INTEGER
ENDTYPE
PROCEDURE loc(pr : gr)
TYPE lt = (la, lb)
TYPE lr
DECLARE fl : lt
DECLARE fg : gt
ENDTYPE
DECLARE vl : lr
DECLARE ar : ARRAY[1:2] OF lt
vl.fl <- lb
vl.fg <- pr.fe
ar[2] <- vl.fl
OUTPUT vl.fl, vl.fg, ar[1], ar[2], pr.fn
ENDPROCEDURE
DECLARE vg : gr
vg.fe <- gb
CALL loc(vg)
CALL loc(vg)
OUTPUT vg.fe, ga + 1
''', '''TYPE rec
DECLARE num : INTEGER
ENDTYPE
TYPE ptr = ^rec
TYPE enu = (red, blu)
DECLARE glo : rec
glo.num <- 4
FUNCTION mk(arg : INTEGER) RETURNS rec
TYPE loc
DECLARE oth : INTEGER
DECLARE fie : enu
ENDTYPE
TYPE lop = ^loc
DECLARE one : loc
DECLARE two : lop
DECLARE res : rec
two <- ^one
two^.oth <- arg
two^.fie <- blu
res.num <- one.oth + 1
OUTPUT one.oth, one.fie
RETURN res
ENDFUNCTION
DECLARE way : ptr
way <- ^glo
glo <- mk(8)
OUTPUT way^.num
way^ <- mk(9)
OUTPUT glo.num
''']
P['C08'] = ['''CONSTANT ka = 5
CONSTANT kb = "t"
DECLARE va : INTEGER
DECLARE arr : ARRAY[1:2] OF INTEGER
PROCEDURE pa(BYREF ra : INTEGER, BYVAL na : INTEGER)
CONSTANT kc = 8
na <- na + kc
OUTPUT ra, na, kc, ka
ra <- na
ENDPROCEDURE
FUNCTION fa(nb : INTEGER) RETURNS INTEGER
CONSTANT kd = 2
nb <- nb * kd
lo <- nb
RETURN lo
ENDFUNCTION
va <- ka
CALL pa(va, 1)
OUTPUT va, ka, kb
arr[1] <- fa(ka)
OUTPUT arr[1], ka
FOR it <- 1 TO 2
OUTPUT fa(it), it
NEXT it
CALL pa(ka, 2)
''', '''CONSTANT ca = 3
CONSTANT cb = -2.5
PROCEDURE pb(va : INTEGER, BYREF rb : REAL)
INPUT va
OUTPUT va, rb, ca
INPUT rb
OUTPUT rb, cb
ENDPROCEDURE
DECLARE vb : REAL
vb <- cb
CALL pb(ca, vb)
OUTPUT vb, ca, cb
OPENFILE "f" FOR WRITE
WRITEFILE "f", ca
CLOSEFILE "f"
OPENFILE "f" FOR READ
READFILE "f", vs
OUTPUT vs
''']
P['C03'] = ['''DECLARE na, nb : INTEGER
PROCEDURE pa(lim : INTEGER)
FOR ia <- 1 TO lim
FOR ja <- ia TO lim
OUTPUT ia, ja
NEXT ja
NEXT ia
na <- na + 1
ENDPROCEDURE
FUNCTION fa(arg : INTEGER) RETURNS INTEGER
FOR ka <- arg TO 1 STEP -1
IF ka = 2 THEN
RETURN ka * 10
ENDIF
nb <- nb + ka
NEXT ka
RETURN nb
ENDFUNCTION
FOR ib <- 1 TO 3
CALL pa(ib)
OUTPUT fa(ib), na, nb
NEXT ib
WHILE na > 1 DO
na <- na - 1
FOR kb <- 1 TO na
OUTPUT kb
NEXT kb
ENDWHILE
CASE OF nb
na: OUTPUT "na"
1 TO 5: OUTPUT "few"
OTHERWISE: OUTPUT "many"
ENDCASE
''']
P['C06'] = ['''DECLARE aa, ab : ARRAY[1:3] OF INTEGER
DECLARE ma : ARRAY[0:1, 1:2] OF INTEGER
DECLARE ix : INTEGER
PROCEDURE pa(BYREF el : INTEGER, BYVAL po : INTEGER)
DECLARE al : ARRAY[1:2] OF INTEGER
al[po] <- el
el <- al[1] + 20
aa[po] <- al[2]
OUTPUT el, al[1], al[2], aa[po]
ENDPROCEDURE
FUNCTION fa(ni : INTEGER) RETURNS INTEGER
RETURN aa[ni] + ab[ni]
ENDFUNCTION
aa[1] <- 4
aa[2] <- 5
ix <- 2
ab <- aa
ab[ix] <- 6
ma[ix - 1, ix] <- 7
CALL pa(ab[ix], 1)
CALL pa(ma[1, 2], ix)
OUTPUT fa(ix), fa(1), ma[1, 2], aa[1], aa[2], ab[1], ab[2]
''']
P['C05'] = ['''DECLARE vi : INTEGER
DECLARE vr : REAL
DECLARE vs : STRING
DECLARE vc : CHAR
PROCEDURE pa(ni : INTEGER, nr : REAL, ns : STRING, nc : CHAR)
lr <- nr
ls <- ns
OUTPUT ni, nr, ns, nc, lr, ls
vr <- ni
ENDPROCEDURE
FUNCTION fr(ri : REAL) RETURNS REAL
RETURN INT(ri)
ENDFUNCTION
FUNCTION fs(cs : CHAR) RETURNS STRING
RETURN cs
ENDFUNCTION
vi <- 3
vr <- vi
vc <- "q"
vs <- vc
CALL pa(vi, vi, vc, vs)
OUTPUT vr, fr(vi), fs(vs)
na <- vr
nb <- fs(vc)
OUTPUT na, nb
''']
P['C16'] = ['''CONSTANT nf = "one"
DECLARE ln : STRING
PROCEDURE op(pn : STRING)
OPENFILE pn FOR WRITE
WRITEFILE pn, "in " & pn
fl <- pn & "2"
ENDPROCEDURE
FUNCTION rd(qn : STRING) RETURNS STRING
OPENFILE qn FOR READ
READFILE qn, lo
CLOSEFILE qn
RETURN lo
ENDFUNCTION
CALL op(nf)
CALL op("two")
WRITEFILE nf, "more"
CLOSEFILE nf
CLOSEFILE "two"
ln <- rd(nf)
OUTPUT ln, rd("two")
OPENFILE "r" FOR RANDOM
PUTRECORD "r", ln
SEEK "r", 1
st <- ""
GETRECORD "r", st
OUTPUT st
''']
P['C13'] = ['''TYPE en = (ea, eb)
TYPE re
DECLARE fi : INTEGER
DECLARE fe : en
DECLARE fa : ARRAY[1:2] OF STRING
ENDTYPE
DECLARE va, vb : re
DECLARE ar, as : ARRAY[1:2] OF re
PROCEDURE put(BYREF rr : re, BYVAL no : INTEGER)
DECLARE lo : re
lo <- rr
lo.fi <- no
SEEK "r", no
PUTRECORD "r", lo
PUTRECORD "r", rr
ENDPROCEDURE
va.fi <- 4
va.fe <- eb
va.fa[2] <- "x y"
ar[2] <- va
OPENFILE "r" FOR RANDOM
CALL put(va, 1)
SEEK "r", 2
PUTRECORD "r", ar
SEEK "r", 1
GETRECORD "r", vb
OUTPUT vb.fi, vb.fe, vb.fa[2]
SEEK "r", 2
GETRECORD "r", as
OUTPUT as[2].fi, as[2].fe, as[2].fa[2]
''']
P['C04'].append(P['C09'][0])


def words(src):
    return [t for t in IDENT.findall(src)]


def idents(toks):
    out = []
    for t in toks:
        if (t[0].isalpha()) and t not in KEY and t not in out:
            out.append(t)
    return out


def blocks(toks):
    """Token ranges of procedures, functions and record types."""
    out = []
    k = 0
    while k < len(toks):
        t = toks[k]
        if t in ('PROCEDURE', 'FUNCTION') or t == 'TYPE' and '=' not in ''.join(toks[k:k + 4]).split('\n')[0]:
            e = k
            while toks[e] != 'END' + t:
                e += 1
            out.append((k, e))
            if t == 'TYPE':
                k = e
        k += 1
    return out


def merges(src):
    """All single substitutions: (key, function on tokens)."""
    toks = words(src)
    ids = idents(toks)
    bl = blocks(toks)
    for x, y in itertools.combinations(ids, 2):
        yield (None, x, y)
    for x in ids:
        for y in EXTRA:
            yield (None, x, y)
    for n, (a, b) in enumerate(bl):
        inside = idents(toks[a:b])
        for x in inside:
            for y in ids:
                if x != y:
                    yield (n, x, y)


def apply(toks, bl, ms):
    out = list(toks)
    for n, x, y in ms:
        lo, hi = bl[n] if n is not None else (0, len(toks))
        for k in range(lo, hi):
            if out[k] == x:
                out[k] = y
    return ''.join(out)


def run(ctx, src, group, kw):
    toks = words(src)
    bl = blocks(toks)
    seen = set()
    for ms in group:
        s = apply(toks, bl, ms)
        if s in seen:
            continue
        seen.add(s)
        x, r = ctx.diff(s, '6\n7.5\n', **kw)
        ctx.observe(('merge', r.out))


def entries(ctx, src, group):
    import c12
    toks = words(src)
    bl = blocks(toks)
    for ms in group:
        es = c12.split(apply(toks, bl, ms))
        if es is not None:
            ctx.repl('\n'.join(e + ('\n' if '\n' in e else '') for e in es) + '\n')


def cases(tier, prop, kw=None, double=None, repl=False):
    q = tier == 'quick'
    own = P.get(prop)
    for src in dict.fromkeys(own or sum(P.values(), [])):
        ms = list(merges(src))
        yield (entries, src, [[]]) if repl else (run, src, [[]], kw or {})
        for k in range(0, len(ms), 12):
            g = [[m] for m in ms[k:k + 12]]
            yield (entries, src, g) if repl else (run, src, g, kw or {})
        if own is None or repl or double is False:
            continue
        one = [m for m in ms if m[2] not in EXTRA]
        if q:
            one = [m for m in one if m[0] is None]
        it = itertools.combinations(one, 2)
        while True:
            g = [list(c) for c in itertools.islice(it, 60)]
            if not g:
                break
            yield (run, src, g, kw or {})
