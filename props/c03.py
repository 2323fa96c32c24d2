"""C03: selection and loop statements execute exactly the documented control flow.

Enumerates programs over a bounded statement grammar; every program prints a trace of what it executes."""
import itertools

from gen import prog
import merge
import rerun
import scale
import transport

INFO = dict(
    rule='all programs of the bounded statement grammars: FOR over all (start, stop, step) in the bounds with all iterator '
         'declarations; two-level (thorough: three-level) nests of WHILE/REPEAT/FOR with every body of up to 3 items over output, '
         'conditional and unconditional BREAK/CONTINUE, wrapped in IF/CASE; all IF chains x condition vectors; all CASE statements '
         'x selector values; conditions of every type. Each prints its trace; stdout, status and error kind are compared',
    assumptions=['FOR with step 0, iterator overflow and iterators changed by the body are not asserted',
                 'CASE ranges over non-numeric types are not asserted'])


# ---- FOR
def fors(tier):
    lo, hi = (-3, 4) if tier == 'quick' else (-5, 6)
    steps = [None, 1, 2, 3, -1, -2, -3] if tier == 'quick' else [None, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5]
    for a in range(lo, hi):
        for b in range(lo, hi):
            for s in steps:
                h = 'FOR i <- %d TO %d%s\n' % (a, b, '' if s is None else ' STEP %d' % s)
                yield h + 'OUTPUT i\nNEXT i\nOUTPUT "end ", i\n'
                yield 'DECLARE i : INTEGER\ni <- 9\n' + h + 'OUTPUT i\nNEXT\nOUTPUT "end ", i\n'
                # bounds and step held in variables that the body changes
                sv = 1 if s is None else s
                yield ('a <- %d\nb <- %d\ns <- %d\nFOR i <- a TO b STEP s\nOUTPUT i\na <- a + 5\nb <- b - 1\ns <- s * 2\nNEXT i\nOUTPUT i, " ", a, " ", b, '
                       '" ", s\n' % (a, b, sv))
                # evaluated exactly once
                yield ('DECLARE na, nb, ns : INTEGER\nFUNCTION fa(x : INTEGER) RETURNS INTEGER\nna <- na + 1\nRETURN x\nENDFUNCTION\n'
                       'FUNCTION fb(x : INTEGER) RETURNS INTEGER\nnb <- nb + 1\nRETURN x\nENDFUNCTION\n'
                       'FUNCTION fs(x : INTEGER) RETURNS INTEGER\nns <- ns + 1\nRETURN x\nENDFUNCTION\n'
                       'FOR i <- fa(%d) TO fb(%d) STEP fs(%d)\nOUTPUT i\nNEXT i\nOUTPUT i, na, nb, ns\n' % (a, b, sv))
                if s in (None, 2, -1):
                    for ctl in ('BREAK', 'CONTINUE'):
                        for at in range(lo, hi, 2):
                            yield h + 'OUTPUT "in ", i\nIF i = %d THEN\n%s\nENDIF\nOUTPUT i\nNEXT i\nOUTPUT "end ", i\n' % (at, ctl)
    big = 2**62
    for a, b, s in ((big - 2, big + 1, 1), (-big, -big - 3, -1), (2**31 - 2, 2**31 + 2, 1), (2**32 - 1, 2**32 + 5, 3), (10**15, 10**15 + 4, 2),
                    (-2**31 + 1, -2**31 - 2, -1), (2**53 - 1, 2**53 + 3, 1), (1, 2**33, 2**32), (0, -2**40, -2**39)):
        yield 'FOR i <- %d TO %d STEP %d\nOUTPUT i\nNEXT i\nOUTPUT i\n' % (a, b, s)
    for e in ('2.0', 'TRUE', '"1"', "'1'", '1/1/2000', 'zz', '5 / 1', '1 = 1'):
        for h in ('FOR i <- %s TO 3', 'FOR i <- 1 TO %s', 'FOR i <- 1 TO 3 STEP %s'):
            yield 'OUTPUT "a"\n' + h % e + '\nOUTPUT i\nNEXT i\nOUTPUT "b"\n'
    for t in ('REAL', 'STRING', 'CHAR', 'BOOLEAN', 'DATE', 'ARRAY[1:2] OF INTEGER'):
        yield 'DECLARE i : %s\nOUTPUT "a"\nFOR i <- 1 TO 3\nOUTPUT "x"\nNEXT i\nOUTPUT "b"\n' % t
    # nested FOR over a grid, with dependent bounds
    for a, b, s in itertools.product(range(0, 4), range(0, 4), (1, 2, -1)):
        yield 'FOR i <- 0 TO %d\nFOR j <- i TO %d STEP %d\nOUTPUT i, j\nNEXT j\nOUTPUT "i", i, " ", j\nNEXT i\nOUTPUT i\n' % (a, b, s)
        yield ('FUNCTION f(n : INTEGER) RETURNS INTEGER\nt <- 0\nFOR i <- %d TO n STEP %d\nt <- t + i\nNEXT i\nRETURN t * 10 + i\nENDFUNCTION\n'
               'FOR i <- 0 TO %d\nOUTPUT i, " ", f(i)\nNEXT i\n' % (b, s if s > 0 else 1, a))
    # the iterator inside a procedure: global, local, parameter
    for decl, arg in (('', ''), ('DECLARE i : INTEGER\n', ''), ('', 'i : INTEGER'), ('', 'BYREF i : INTEGER')):
        for bod in ('OUTPUT i', 'BREAK', 'CONTINUE', 'IF i = 2 THEN\nBREAK\nENDIF\nOUTPUT i'):
            call = 'CALL p(%s)' % ('i' if 'BYREF' in arg else '7' if arg else '')
            yield 'i <- 50\nPROCEDURE p(%s)\n%sFOR i <- 1 TO 3\n%s\nNEXT i\nOUTPUT "p", i\nENDPROCEDURE\n%s\nOUTPUT i\n' % (arg, decl, bod, call)


# ---- loops
def body_items(v, at=2):
    return ['OUTPUT "%s", %s' % (v, v), 'IF %s = %d THEN\nBREAK\nENDIF' % (v, at), 'IF %s = %d THEN\nCONTINUE\nENDIF' % (v, at), 'BREAK', 'CONTINUE',
            'CASE OF %s\n%d:\nOUTPUT "c"\nBREAK\nOTHERWISE:\nOUTPUT "d"\nENDCASE' % (v, at),
            'CASE OF %s\n%d TO %d:\nCONTINUE\nENDCASE' % (v, at - 1, at)]


def loop(kind, v, body, n=3):
    """A loop over v = 1..n; the counter is stepped first so that CONTINUE terminates."""
    if kind == 'F':
        return 'FOR %s <- 1 TO %d\n%s\nNEXT %s\nOUTPUT "end%s", %s' % (v, n, body, v, v, v)
    if kind == 'D':
        return 'FOR %s <- %d TO 1 STEP -1\n%s\nNEXT\nOUTPUT "end%s", %s' % (v, n, body, v, v)
    if kind == 'W':
        return '%s <- 0\nWHILE %s < %d DO\n%s <- %s + 1\n%s\nENDWHILE\nOUTPUT "end%s", %s' % (v, v, n, v, v, body, v, v)
    return '%s <- 0\nREPEAT\n%s <- %s + 1\n%s\nUNTIL %s >= %d\nOUTPUT "end%s", %s' % (v, v, v, body, v, n, v, v)


def bodies(v, n, items=None):
    items = items or body_items(v)
    for k in range(0, n + 1):
        for b in itertools.product(items, repeat=k):
            yield '\n'.join(b)


def nests(tier):
    for k in 'FDWR':
        for b in bodies('i', 3 if tier == 'quick' else 4):
            yield loop(k, 'i', b) + '\n'
    inner = list(bodies('j', 2))
    outer = ['', 'OUTPUT "i", i', 'IF i = 2 THEN\nBREAK\nENDIF', 'IF i = 2 THEN\nCONTINUE\nENDIF', 'IF j = 2 THEN\nBREAK\nENDIF', 'BREAK', 'CONTINUE']
    for ko, ki in itertools.product('FWR', 'FWR'):
        for b in inner:
            for pre in outer[:4]:
                for post in outer:
                    parts = [x for x in (pre, loop(ki, 'j', b), post) if x]
                    yield 'j <- 0\n' + loop(ko, 'i', '\n'.join(parts)) + '\n'
    # inner loop wrapped in selections
    for ko, ki in itertools.product('FWR', 'FWRD'):
        for b in bodies('j', 2 if tier == 'quick' else 3):
            for w in ('IF i <> 2 THEN\n%s\nELSE\nOUTPUT "else"\nENDIF', 'CASE OF i\n2:\n%s\n3: CONTINUE\nOTHERWISE: OUTPUT "o"\nENDCASE',
                      'IF i = 1 THEN\nOUTPUT "one"\nELSE IF i = 2 THEN\n%s\nBREAK\nENDIF', 'CALL p\n%s'):
                yield ('PROCEDURE p()\nDECLARE i : INTEGER\nFOR i <- 1 TO 2\nIF i = 2 THEN\nBREAK\nENDIF\nNEXT i\nOUTPUT "p"\nENDPROCEDURE\n' +
                       loop(ko, 'i', (w % loop(ki, 'j', b)) + '\nOUTPUT "post", i') + '\n')
    # three levels
    third = ['OUTPUT "k", k', 'IF k = 2 THEN\nBREAK\nENDIF', 'IF k = 1 THEN\nCONTINUE\nENDIF', 'BREAK', 'CONTINUE']
    second = ['', 'IF j = 2 THEN\nBREAK\nENDIF', 'IF j = 1 THEN\nCONTINUE\nENDIF', 'BREAK']
    for kinds in itertools.product('FWR', repeat=3):
        for b in bodies('k', 1 if tier == 'quick' else 2, third):
            for pre, post in itertools.product(second, second if tier == 'thorough' else second[:2]):
                for p3 in ('', 'IF i = 2 THEN\nBREAK\nENDIF'):
                    in2 = '\n'.join(x for x in (pre, loop(kinds[2], 'k', b, 2), post, 'OUTPUT "j", j') if x)
                    in1 = '\n'.join(x for x in (loop(kinds[1], 'j', in2, 2), p3, 'OUTPUT "i", i') if x)
                    yield loop(kinds[0], 'i', in1, 2) + '\n'


def conds(tier):
    """Conditions evaluated the right number of times, in the right order."""
    f = ('DECLARE n : INTEGER\nFUNCTION c(x : BOOLEAN, k : STRING) RETURNS BOOLEAN\nOUTPUT k\nRETURN x\nENDFUNCTION\n'
         'FUNCTION lt(m : INTEGER) RETURNS BOOLEAN\nOUTPUT "?", n\nRETURN n < m\nENDFUNCTION\n')
    kmax = 4 if tier == 'quick' else 6
    for k in range(1, kmax + 1):
        for v in itertools.product(('TRUE', 'FALSE'), repeat=k):
            for els in (0, 1):
                s = ''
                for i, x in enumerate(v):
                    s += ('IF' if i == 0 else 'ELSE IF') + ' c(%s, "c%d") THEN\nOUTPUT "b%d"\n' % (x, i, i)
                s += 'ELSE\nOUTPUT "else"\n' if els else ''
                yield f + s + 'ENDIF\nOUTPUT "end"\n'
                # branches that make the conditions true or false afterwards
                s = 'DECLARE x : BOOLEAN\nx <- %s\n' % v[0]
                for i, y in enumerate(v):
                    s += ('IF' if i == 0 else 'ELSE IF') + ' x = %s THEN\nx <- NOT x\nOUTPUT "b%d"\n' % (y, i)
                yield s + ('ELSE\nx <- NOT x\nOUTPUT "else"\n' if els else '') + 'ENDIF\nOUTPUT x\n'
    # empty branches
    for a, b, c in itertools.product(('TRUE', 'FALSE'), ('', 'OUTPUT "t"\n'), ('', 'ELSE\n', 'ELSE\nOUTPUT "e"\n')):
        yield 'IF %s THEN\n%s%sENDIF\nOUTPUT "end"\n' % (a, b, c)
        yield 'IF %s\nTHEN\n%s%sENDIF\nOUTPUT "end"\n' % (a, b, c)
        yield 'IF %s THEN %s%s ENDIF\nOUTPUT "end"\n' % (a, b, c)
    # nested IFs: dangling ELSE belongs to the inner one
    for a, b, c in itertools.product(('TRUE', 'FALSE'), repeat=3):
        yield ('IF %s THEN\nIF %s THEN\nOUTPUT "ab"\nELSE\nOUTPUT "a-"\nENDIF\nELSE\nIF %s THEN\nOUTPUT "-c"\nENDIF\nOUTPUT "--"\nENDIF\nOUTPUT "end"\n' % (a, b, c))
        yield ('IF %s THEN\nIF %s THEN\nOUTPUT "1"\nELSE IF %s THEN\nOUTPUT "2"\nELSE\nOUTPUT "3"\nENDIF\nELSE IF %s THEN\nOUTPUT "4"\nELSE\nOUTPUT "5"\nENDIF\n' %
               (a, b, c, b))
    for k in range(0, 4):
        for st in range(-1, 4):
            yield f + 'n <- %d\nWHILE lt(%d) DO\nOUTPUT "b"\nn <- n + 1\nENDWHILE\nOUTPUT n\n' % (st, k)
            yield f + 'n <- %d\nREPEAT\nOUTPUT "b"\nn <- n + 1\nUNTIL NOT lt(%d)\nOUTPUT n\n' % (st, k)
            yield f + 'n <- %d\nREPEAT\nn <- n + 1\nIF n = 2 THEN\nCONTINUE\nENDIF\nOUTPUT "b"\nUNTIL NOT lt(%d)\nOUTPUT n\n' % (st, k)
            yield f + 'n <- %d\nWHILE lt(%d) DO\nn <- n + 1\nIF n = 2 THEN\nCONTINUE\nENDIF\nOUTPUT "b"\nENDWHILE\nOUTPUT n\n' % (st, k)
            yield f + 'n <- %d\nWHILE TRUE DO\nn <- n + 1\nIF NOT lt(%d) THEN\nBREAK\nENDIF\nOUTPUT "b"\nENDWHILE\nOUTPUT n\n' % (st, k)
            yield f + 'n <- %d\nREPEAT\nn <- n + 1\nIF NOT lt(%d) THEN\nBREAK\nENDIF\nOUTPUT "b"\nUNTIL FALSE\nOUTPUT n\n' % (st, k)
    # not BOOLEAN
    pre = ('TYPE E = (ea, eb)\nTYPE PI = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nENDTYPE\nDECLARE e : E\nDECLARE p : PI\nDECLARE r : R\n'
           'DECLARE v : INTEGER\nDECLARE s : STRING\nDECLARE b : BOOLEAN\nDECLARE d : DATE\nDECLARE arr : ARRAY[1:2] OF BOOLEAN\nb <- TRUE\n'
           'FUNCTION g() RETURNS INTEGER\nRETURN 1\nENDFUNCTION\n')
    for e in ('0', '1', '5', '-1', '1.0', '0.0', '"TRUE"', '""', "'T'", 'ea', 'eb', 'e', 'p', 'r', 'v', 's', 'd', '1/1/2000', 'g()', 'LENGTH("a")', 'b', 'arr[1]',
              'arr', '1 + 1', '"a" & "b"', 'b AND b', 'NOT b', '1 < 2', 'b = b', '(b)', '(1)', 'undefined', 'INTEGER("1")', 'BOOLEAN(1)', 'BOOLEAN("x")'):
        yield pre + 'OUTPUT "a"\nIF %s THEN\nOUTPUT "t"\nELSE\nOUTPUT "f"\nENDIF\nOUTPUT "z"\n' % e
        yield pre + 'OUTPUT "a"\nIF FALSE THEN\nOUTPUT "t"\nELSE IF %s THEN\nOUTPUT "u"\nELSE\nOUTPUT "f"\nENDIF\nOUTPUT "z"\n' % e
        yield pre + 'OUTPUT "a"\nIF TRUE THEN\nOUTPUT "t"\nELSE IF %s THEN\nOUTPUT "u"\nELSE\nOUTPUT "f"\nENDIF\nOUTPUT "z"\n' % e
        yield pre + 'OUTPUT "a"\nWHILE %s DO\nOUTPUT "t"\nBREAK\nENDWHILE\nOUTPUT "z"\n' % e
        yield pre + 'OUTPUT "a"\nn <- 0\nREPEAT\nn <- n + 1\nOUTPUT n\nIF n = 3 THEN\nBREAK\nENDIF\nUNTIL %s\nOUTPUT "z"\n' % e
        yield pre + 'OUTPUT "a"\nn <- 0\nREPEAT\nn <- n + 1\nOUTPUT n\nIF n = 3 THEN\nBREAK\nENDIF\nCONTINUE\nUNTIL %s\nOUTPUT "z"\n' % e
    # the value becomes non-BOOLEAN only in a later iteration
    for e in ('f(n)', 'NOT f(n)'):
        pre2 = 'DECLARE n : INTEGER\nFUNCTION f(k : INTEGER) RETURNS BOOLEAN\nIF k = 3 THEN\nRETURN 7\nENDIF\nRETURN k < 5\nENDFUNCTION\n'
        yield pre2 + 'WHILE %s DO\nn <- n + 1\nOUTPUT n\nENDWHILE\n' % e
        yield pre2 + 'REPEAT\nn <- n + 1\nOUTPUT n\nUNTIL %s\n' % e


# ---- CASE
def case_src(sel, clauses, otherwise, inline=True):
    s = sel[0] + 'CASE OF x\n'
    for i, c in enumerate(clauses):
        s += '%s :%sOUTPUT "c%d"\n' % (c, ' ' if inline else '\n', i)
        if not inline:
            s += 'OUTPUT "again"\n'
    if otherwise:
        s += 'OTHERWISE : OUTPUT "o"\n'
    return s + 'ENDCASE\nOUTPUT "end"\n'


def case_stmts(tier):
    cl = ['1', '2', '3', '1 TO 2', '2 TO 3', '3 TO 1', '2 TO 2', '-1', '-2 TO 0', 'k', 'k + 1', '1.0', '1.5 TO 2.5', '2 * 1 TO 6 / 2', '-(2) TO -1']
    n = 2 if tier == 'quick' else 3
    for v in (-2, -1, 0, 1, 2, 3, 4):
        for k in range(0, n + 1):
            for c in itertools.product(cl, repeat=k):
                for o in (0, 1):
                    yield case_src(('k <- 2\nx <- %d\n' % v,), c, o, (len(c) + v + o) % 2 == 0)
    for v in (-2, 0, 1, 2, 3, 4):
        for c in itertools.permutations(['1', '2 TO 3', '0 TO 4', '-5 TO -1'], 3):
            yield case_src(('x <- %d\n' % v,), c, 1, False)
    for v in ('1.0', '1.5', '2.0', '2.5', '0.1', '-1.0', '3.0000001', '9007199254740993.0'):
        for c in itertools.product(['1', '1.5', '2', '1 TO 2', '1.2 TO 2.1', '-1', '0.1', '3', '9007199254740993', '2 TO 1'], repeat=2):
            yield case_src(('DECLARE x : REAL\nx <- %s\n' % v,), c, 1)
    for v in (2**53, 2**53 + 1, 2**53 - 1, 2**62 + 1, 2**31, -2**31 - 1):
        for c in itertools.product([str(2**53), str(2**53 + 1), '%d TO %d' % (2**53 - 1, 2**53), '%d TO %d' % (2**62, 2**62 + 2), str(-2**31 - 1),
                                    '%d TO %d' % (2**31, 2**31 + 1)], repeat=2):
            yield case_src(('x <- %d\n' % v,), c, 1)
    vals = {'CHAR': ["'a'", "'b'", "'A'", "'\\n'", "' '"], 'STRING': ['"a"', '"b"', '""', '"ab"', '"A"', '"a "'], 'BOOLEAN': ['TRUE', 'FALSE', '1 = 1', 'NOT TRUE'],
            'DATE': ['1/1/2000', '2/1/2000', '1/2/2000', '1/1/2001'], 'E': ['ea', 'eb', 'ec', 'eb + 1'], 'INTEGER': ['1', '2', '0']}
    pre = 'TYPE E = (ea, eb, ec)\nTYPE F = (fa, fb)\n'
    for t, vs in vals.items():
        for v in vs:
            for c in itertools.product(vs, repeat=2):
                yield case_src((pre + 'DECLARE x : %s\nx <- %s\n' % (t, v),), c, 1)
                yield case_src((pre + 'DECLARE x : %s\nx <- %s\n' % (t, v),), c, 0, False)
            if t != 'INTEGER':                  # nor do ranges of numbers
                for c in (['1 TO 2'], ['0.5 TO 300.0', v], [v, '0 TO 1'], ['0 TO 100', '1 TO 3'], ['3 TO 1', '1']):
                    for o in (0, 1):
                        yield case_src((pre + 'DECLARE x : %s\nx <- %s\n' % (t, v),), c, o)
            for t2, ws in vals.items():         # clauses of another type never match
                if t2 != t and {t, t2} != {'CHAR', 'STRING'}:
                    for w in ws:
                        yield case_src((pre + 'DECLARE x : %s\nx <- %s\n' % (t, v),), (w, v), 1)
            yield case_src((pre + 'DECLARE x : %s\nx <- %s\n' % (t, v),), ('fa', v), 1)
    # clause bodies: several statements, nested CASE, loops with BREAK, empty
    for v in (0, 1, 2, 3, 4):
        yield 'x <- %d\nCASE OF x\n1: OUTPUT "1"\nx <- 2\nOUTPUT "1b"\n2:\n3: OUTPUT "3"\nCASE OF x\n3: OUTPUT "33"\nOTHERWISE: OUTPUT "3o"\nENDCASE\nOUTPUT "3e"\n' \
              'OTHERWISE:\nOUTPUT "o"\nOUTPUT "p"\nENDCASE\nOUTPUT x\n' % v
        yield 'FOR x <- 0 TO 5\nCASE OF x\n%d: BREAK\n%d: CONTINUE\nOTHERWISE: OUTPUT "o", x\nENDCASE\nOUTPUT "post", x\nNEXT x\nOUTPUT x\n' % (v, (v * 3 + 1) % 5)
        yield 'FOR x <- 0 TO 3\nCASE OF x\n%d: FOR y <- 1 TO 3\nIF y = 2 THEN\nBREAK\nENDIF\nOUTPUT y\nNEXT y\nOUTPUT "c"\nOTHERWISE: OUTPUT "o"\nENDCASE\nNEXT x\n' % v
        yield ('FUNCTION f(x : INTEGER) RETURNS STRING\nCASE OF x\n1: RETURN "one"\n2 TO 3: RETURN "few"\nOTHERWISE: OUTPUT "many"\nENDCASE\nRETURN "?"\nENDFUNCTION\n'
               'OUTPUT f(%d)\n' % v)
    # clause expressions are only evaluated up to the match, and errors in them are reported
    for v in (1, 2, 3):
        for e in ('1 / 0', 'zz', '"a" + 1', 'f(2)', 'LEFT("a", 9)'):
            yield ('FUNCTION f(k : INTEGER) RETURNS INTEGER\nOUTPUT "f", k\nRETURN k\nENDFUNCTION\nx <- %d\nOUTPUT "s"\nCASE OF x\nf(1): OUTPUT "one"\n%s: OUTPUT "two"\n'
                   'f(3) TO f(3) + 1: OUTPUT "three"\nENDCASE\nOUTPUT "end"\n' % (v, e))


def jumps(tier):
    """BREAK and CONTINUE against calls and at places without a loop; RETURN out of loops."""
    for ctl in ('BREAK', 'CONTINUE'):
        for place in ('%s\n', 'IF TRUE THEN\n%s\nENDIF\n', 'x <- 1\nCASE OF x\n1: %s\nENDCASE\n', 'PROCEDURE p()\n%s\nENDPROCEDURE\nCALL p\n',
                      'PROCEDURE p()\nOUTPUT "p"\nIF TRUE THEN\n%s\nENDIF\nENDPROCEDURE\nFOR i <- 1 TO 2\nCALL p\nOUTPUT i\nNEXT i\n',
                      'FUNCTION f() RETURNS INTEGER\n%s\nRETURN 1\nENDFUNCTION\nn <- 0\nWHILE n < 2 DO\nn <- n + 1\nOUTPUT f()\nENDWHILE\n',
                      'FUNCTION f() RETURNS BOOLEAN\n%s\nRETURN TRUE\nENDFUNCTION\nREPEAT\nOUTPUT "r"\nUNTIL f()\n'):
            yield 'OUTPUT "a"\n' + place % ctl + 'OUTPUT "z"\n'
    for k in itertools.product('FWR', repeat=2):
        for at in (1, 2, 3, 9):
            src = loop(k[0], 'i', loop(k[1], 'j', 'IF i * j = %d THEN\nRETURN i * 10 + j\nENDIF' % (at * 2)))
            yield 'FUNCTION f() RETURNS INTEGER\n%s\nRETURN -1\nENDFUNCTION\nFOR q <- 1 TO 2\nOUTPUT f()\nNEXT q\nOUTPUT q\n' % src
            src = loop(k[0], 'i', 'OUTPUT g(i)\nIF i = %d THEN\nBREAK\nENDIF' % at)
            yield ('FUNCTION g(n : INTEGER) RETURNS INTEGER\n%s\nRETURN j\nENDFUNCTION\n' % loop(k[1], 'j', 'IF j = n THEN\nBREAK\nENDIF') + src + '\n')


def chains(tier):
    """BREAK/CONTINUE inside an activation that was called from loops of other activations: they reach no loop but their own."""
    def around(k, v, body):
        return body if k == '-' else loop(k, v, body, 2)

    leafs = {'plain': '%s', 'if': 'IF TRUE THEN\nOUTPUT "t"\n%s\nENDIF', 'case': 'CASE OF one\n1: %s\nENDCASE'}
    for k in 'FWR':
        leafs['loop' + k] = loop(k, 'l', 'IF l = 1 THEN\n%s\nENDIF\nOUTPUT "l", l', 2)
        leafs['after' + k] = loop(k, 'l', 'OUTPUT "l", l', 2) + '\n%s'
        leafs['broken' + k] = loop(k, 'l', 'BREAK', 2) + '\n%s'
        leafs['before' + k] = '%s\n' + loop(k, 'l', 'OUTPUT "l", l', 2)
    depth = 3 if tier == 'quick' else 4
    for d in range(1, depth):
        for kinds in itertools.product('PF', repeat=d):
            for loops in itertools.product('-FWR', repeat=d):
                for name, leaf in leafs.items():
                    if d == 2 and tier == 'quick' and name[:5] in ('after', 'befor', 'broke') and name[-1] != 'F' and kinds[0] != kinds[1]:
                        continue
                    if d > 2 and name[:5] in ('after', 'befor', 'broke'):
                        continue
                    for ctl in ('BREAK', 'CONTINUE'):
                        src = 'one <- 1\n'
                        for lv in range(d, 0, -1):
                            kd = kinds[lv - 1]
                            if lv == d:
                                body = 'OUTPUT "leaf"\n' + leaf % ctl + '\nOUTPUT "leafend"'
                            else:
                                nx = 'CALL u%d' % (lv + 1) if kinds[lv] == 'P' else 'r <- u%d()' % (lv + 1)
                                body = around(loops[lv], 'i', 'OUTPUT "u%d"\n%s\nOUTPUT "back%d"' % (lv, nx, lv))
                            body = 'DECLARE i, l, r, one : INTEGER\none <- 1\n' + body
                            src += ('PROCEDURE u%d()\n%s\nENDPROCEDURE\n' if kd == 'P' else 'FUNCTION u%d() RETURNS INTEGER\n%s\nRETURN 1\nENDFUNCTION\n') % (lv, body)
                        nx = 'CALL u1' if kinds[0] == 'P' else 'r <- u1()'
                        yield src + around(loops[0], 'm', 'OUTPUT "m"\n%s\nOUTPUT "mb"' % nx) + '\nOUTPUT "end"\n'


def headers(tier):
    """FOR headers that read or change the iterator (and each other) while they are evaluated."""
    pre = ('DECLARE g, cnt : INTEGER\ng <- 4\nFUNCTION ri() RETURNS INTEGER\nOUTPUT "ri", i\nRETURN i\nENDFUNCTION\nFUNCTION wi(x : INTEGER) RETURNS INTEGER\nOUTPUT "wi", i, x\ni <- i + 1\nRETURN x\nENDFUNCTION\n'
           'FUNCTION tr(x : INTEGER, s : STRING) RETURNS INTEGER\nOUTPUT s\ncnt <- cnt * 10 + x\nRETURN x\nENDFUNCTION\nFUNCTION lp(x : INTEGER) RETURNS INTEGER\nFOR k <- 1 TO 3\nNEXT k\nRETURN x\nENDFUNCTION\n')
    ex = ['1', '3', 'i', 'i + 1', '-i', 'i * 2', 'g', 'ri()', 'wi(2)', 'arr[2]', 'arr[i MOD 3 + 1]', 'r.n', 'p^', 'lp(2)']
    st = ['', '1', '-1', '2', 'i', 'g - 3', 'wi(1)', 'ri() - 3', 'p^ - 4']
    small = ['1', 'i', 'i + 1', 'ri()', 'wi(2)', 'p^']
    holder = 'TYPE R\nDECLARE n : INTEGER\nENDTYPE\nTYPE P = ^INTEGER\nDECLARE r : R\nDECLARE p : P\nDECLARE arr : ARRAY[1:3] OF INTEGER\nDECLARE i : INTEGER\nr.n <- 2\narr[1] <- 3\narr[2] <- 1\narr[3] <- 2\n'
    body = 'OUTPUT "b", i\ncnt <- cnt + 1\nIF cnt > 12 THEN\nBREAK\nENDIF\nNEXT i\nOUTPUT "end", i, " ", g, " ", cnt\n'
    for a, b, s in itertools.product(ex, ex, st):
        if tier == 'quick' and a not in small and b not in small and s not in ('', 'i', 'wi(1)'):
            continue
        h = 'FOR i <- %s TO %s%s\n' % (a, b, ' STEP ' + s if s else '')
        for v in (5, 1, -2) if tier == 'quick' else (5, 1, -2, 0, 3):
            yield pre + holder + 'p <- ^i\ni <- %d\n' % v + h + body
        if a in small and b in small:
            # not yet declared; local iterator beside a global one; parameter; re-entered loop
            yield pre + h.replace('p^', '3') + 'OUTPUT "b", i\nNEXT i\nOUTPUT "end", i\n'
            loc = 'TYPE P = ^INTEGER\nDECLARE arr : ARRAY[1:3] OF INTEGER\narr[2] <- 1\n'
            yield pre + loc + 'DECLARE i : INTEGER\ni <- 2\nPROCEDURE q()\nDECLARE i : INTEGER\nDECLARE p : P\ni <- 3\np <- ^i\n' + h + body + 'ENDPROCEDURE\nCALL q\nOUTPUT i\n'
            yield pre + loc + 'DECLARE i : INTEGER\ni <- 2\nPROCEDURE q(i : INTEGER)\nDECLARE p : P\np <- ^i\n' + h + body + 'ENDPROCEDURE\nCALL q(4)\nOUTPUT i\n'
            yield pre + loc + 'DECLARE i : INTEGER\ni <- 2\nPROCEDURE q(BYREF i : INTEGER)\nDECLARE p : P\np <- ^i\n' + h + body + 'ENDPROCEDURE\nCALL q(i)\nOUTPUT i\nCALL q(g)\nOUTPUT g, i\n'
            yield pre + loc + 'DECLARE i : INTEGER\nDECLARE p : P\np <- ^i\ni <- 2\nFOR j <- 1 TO 3\n' + h + 'OUTPUT "b", i\ncnt <- cnt + 1\nIF cnt > 20 THEN\nBREAK\nENDIF\nNEXT i\nOUTPUT "end", i\nNEXT j\n'
    # order of the three evaluations, and how often
    for a, b, s in itertools.product((1, 2, 5), (1, 3, 5), (1, 2, -1)):
        for w in ('%s', '%s + 0', '(%s)', '%s * 1'):
            yield pre + 'FOR i <- %s TO %s STEP %s\nOUTPUT i\nNEXT i\nOUTPUT i, cnt\n' % tuple(w % ('tr(%d, "%s")' % (x, n)) for x, n in ((a, 'a'), (b, 'b'), (s, 's')))
        yield pre + 'FOR i <- tr(%d, "a") TO tr(%d, "b")\nFOR j <- tr(i, "ja") TO tr(%d, "jb")\nOUTPUT i, j\nNEXT j\nNEXT i\nOUTPUT i, j\n' % (a, b, a + s)


def cases(tier):
    yield from scale.cases(tier, 'C03')
    yield from transport.cases(tier, 'C03')
    yield from rerun.cases(tier, 'C03')
    yield from merge.cases(tier, 'C03')
    for g in (headers, fors, conds, jumps, chains, case_stmts, nests):
        for s in g(tier):
            yield (prog, s)
