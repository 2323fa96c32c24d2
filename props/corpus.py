"""Small programs that together use every construct of the language, in valid and failing forms."""

STDIN = '42\nhello\n3.5\nTRUE\nx\n7\n8\n'
FILES = [('f', 0, 'in.txt', 'first\nsecond\nthird\n')]

PROGRAMS = {
    'assign': 'x <- 5\ny <- x+2*3\nz<-(x-1)*-2\nOUTPUT x,y,z\nOUTPUT x-y, x/y, x DIV 2, x MOD 3, -x, x<y, x<=y, x<>y, x>=5, x=5\n',
    'strings': 's <- "a b // c" & "d\'e" & "q\\"r\\n" & \'x\'\nOUTPUT s, LENGTH(s), \'\\\'\', \'"\', "tab\\tend"\nOUTPUT LEFT(s,2)&RIGHT(s,1), MID(s, 2, 3), TO_UPPER(s)\n',
    'numbers': 'OUTPUT 1.5, 10/4, 10 /4, 10/ 4, 100/10/5.0, 7.0, 3.25*2, 12 DIV 5, DIV(17,5), MOD(17, 5), 1/2/2000, 10 / 5 / 2\n',
    'logic': 'a <- TRUE AND NOT FALSE OR (1 < 2)\nb <- NOT (a AND FALSE)\nIF a AND b THEN\n  OUTPUT "both"\nENDIF\nOUTPUT a=b, a<>b\n',
    'decl': 'DECLARE i, j : INTEGER\nDECLARE r:REAL\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE b : BOOLEAN\nDECLARE d : DATE\nCONSTANT K = 12\nCONSTANT M <- "m"\nCONSTANT N = -3.5\ni <- K\nd <- 2/3/2004\nOUTPUT i, j, r, s, b, d, K, M, N\n',
    'arrays': 'DECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE m : ARRAY[0:1, -1:1] OF STRING\na[1] <- 4\na[a[1]-2] <- 5\nm[0,-1] <- "x"\nm[1, 1] <- m[0, -1] & "y"\nDECLARE b : ARRAY[1:3] OF INTEGER\nb <- a\nOUTPUT a[1], a[2], b[2], m[0,-1], m[1,1]\n',
    'types': 'TYPE E = (ea, eb, ec)\nTYPE P = ^INTEGER\nTYPE R\n  DECLARE n : INTEGER\n  DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nDECLARE e : E\nDECLARE p : P\nDECLARE r, q : R\ne <- eb\ne <- e+1\nx <- 6\np <- ^x\np^ <- p^+1\nr.n <- p^\nr.a[2] <- 9\nq <- r\nOUTPUT e, x, p^, q.n, q.a[2]\n',
    'if': 'x <- 3\nIF x = 1 THEN\n  OUTPUT "one"\nELSE IF x = 3 THEN\n  OUTPUT "three"\nELSE\n  OUTPUT "other"\nENDIF\nIF x > 5 THEN\nOUTPUT "big"\nELSE\nOUTPUT "small"\nENDIF\n',
    'case': 'FOR x <- 0 TO 6\nCASE OF x\n  1: OUTPUT "one"\n  2 TO 3: OUTPUT "few"\n     OUTPUT "more"\n  x + 0 - 0 * 4 TO 4 : OUTPUT "expr"\n  OTHERWISE: OUTPUT "other"\nENDCASE\nNEXT x\n',
    'loops': 'WHILE i < 3 DO\nENDWHILE\n'.replace('i', 'TRUE AND 5') and 'i <- 0\nWHILE i < 3 DO\n  i <- i + 1\n  IF i = 2 THEN\n    CONTINUE\n  ENDIF\n  OUTPUT i\nENDWHILE\nREPEAT\n  i <- i - 1\n  IF i = 1 THEN\n  BREAK\n  ENDIF\nUNTIL i <= 0\nFOR j <- 3 TO 1 STEP -1\n  OUTPUT j\nNEXT j\nFOR k <- 1 TO 2\nOUTPUT k\nNEXT\nOUTPUT i\n',
    'procs': 'PROCEDURE p(BYREF x : INTEGER, y : INTEGER)\n  x <- x + y\nENDPROCEDURE\nPROCEDURE np\n  OUTPUT "np"\nENDPROCEDURE\nPROCEDURE ep()\n  OUTPUT "ep"\nENDPROCEDURE\nFUNCTION f(BYVAL a : INTEGER, b:STRING) RETURNS STRING\n  RETURN b & NUM_TO_STR(a)\nENDFUNCTION\nFUNCTION g RETURNS INTEGER\nRETURN 4\nENDFUNCTION\nz <- 1\nw <- 1\nCALL p(z, w)\nCALL np\nCALL ep()\nOUTPUT z, w, f(3, "q"), g()\n',
    'recursion': 'FUNCTION fact(n : INTEGER) RETURNS INTEGER\n  IF n < 2 THEN\n    RETURN 1\n  ENDIF\n  RETURN n * fact(n - 1)\nENDFUNCTION\nOUTPUT fact(6)\n',
    'input': 'DECLARE n : INTEGER\nINPUT n\nOUTPUT n + 1\nINPUT s\nOUTPUT s\nDECLARE r : REAL\nREAD r\nPRINT r * 2\nDECLARE b : BOOLEAN\nINPUT b\nOUTPUT b\n',
    'files': 'DECLARE l : STRING\nOPENFILE "in.txt" FOR READ\nWHILE NOT EOF("in.txt") DO\n  READFILE "in.txt", l\n  OUTPUT l\nENDWHILE\nCLOSEFILE "in.txt"\nOPENFILE "out.txt" FOR WRITE\nWRITEFILE "out.txt", "x"&"y"\nWRITEFILE "out.txt", 5\nCLOSEFILE "out.txt"\nOPENFILE "out.txt" FOR APPEND\nWRITEFILE "out.txt", TRUE\nCLOSEFILE "out.txt"\n',
    'random': 'DECLARE x, y : INTEGER\nOPENFILE "r.dat" FOR RANDOM\nx <- 5\nSEEK "r.dat", 1\nPUTRECORD "r.dat", x\nSEEK "r.dat", 1\nGETRECORD "r.dat", y\nOUTPUT y\nCLOSEFILE "r.dat"\n',
    'casts': 'OUTPUT INTEGER("12")+1, REAL("2.5"), STRING(5)&"!", BOOLEAN(1), CHAR("z"), INTEGER(3.7), STRING(TRUE)\n',
    'dates': 'DECLARE d : DATE\nd <- 29/2/2000\nOUTPUT d, DAY(d), MONTH(d), YEAR(d), DAYINDEX(d), d < 1/3/2000, SETDATE(1,2,2003)\n',
    'inline': 'x <- 1\nIF x = 1 THEN OUTPUT "a"\nENDIF\nCASE OF x\n1:\nOUTPUT "b"\nENDCASE\nWHILE x < 3 DO x <- x + 1\nENDWHILE\nOUTPUT x\n',
    'empty': '',
    'nest': 'FOR i <- 1 TO 2\n  FOR j <- 1 TO 2\n    IF i = j THEN\n      CASE OF i\n        1: OUTPUT "11"\n        OTHERWISE: WHILE TRUE DO\n          BREAK\n        ENDWHILE\n        OUTPUT "22"\n      ENDCASE\n    ELSE\n      REPEAT\n        OUTPUT i, j\n      UNTIL TRUE\n    ENDIF\n  NEXT j\nNEXT i\n',
    'outforms': 'OUTPUT "a"\nOUTPUT ("b")\nPRINT "c", 1, 2.5, TRUE, \'q\'\nOUTPUT (1+2)*3\nOUTPUT -1\nOUTPUT NOT TRUE\n',
    'headers': 'DECLARE n : INTEGER\nTYPE\nR\nDECLARE a : INTEGER\nENDTYPE\nTYPE\nT = (ta, tb)\nFUNCTION f(x : INTEGER)\nRETURNS INTEGER\nIF x > 1\nTHEN\nRETURN x * 2\nELSE\nRETURN 0\nENDIF\nENDFUNCTION\nWHILE n < 3\nDO\nn <- n + 1\nOUTPUT n, f(n)\nENDWHILE\nIF n = 1\nTHEN\nOUTPUT "one"\nELSE\nOUTPUT "other", tb\nENDIF\n',
    'headers2': 'x <- 0\nWHILE x < 3\nDO\nx <- x + 1\nIF x = 1\nTHEN\nOUTPUT "a"\nELSE IF x = 2\nTHEN\nOUTPUT "b"\nELSE\nOUTPUT "c"\nENDIF\nENDWHILE\n',
    # failing programs
    'e_undef': 'x <- 1\nOUTPUT x\ny <- x + nosuch\nOUTPUT y\n',
    'e_type': 'DECLARE i : INTEGER\ni <- 4\nOUTPUT i\ni <- "text"\nOUTPUT i\n',
    'e_zero': 'FOR i <- 2 TO 0 STEP -1\n  OUTPUT 10 DIV i\nNEXT i\nOUTPUT "z"\n',
    'e_index': 'DECLARE a : ARRAY[1:2] OF INTEGER\nFOR i <- 1 TO 3\n  a[i] <- i\n  OUTPUT a[i]\nNEXT i\n',
    'e_call': 'PROCEDURE p(n : INTEGER)\n  OUTPUT n\n  IF n = 0 THEN\n    OUTPUT 1 / n\n  ENDIF\n  CALL p(n - 1)\nENDPROCEDURE\nOUTPUT "s"\nCALL p(2)\nOUTPUT "e"\n',
    'e_fn': 'FUNCTION f(x : INTEGER) RETURNS INTEGER\n  IF x > 0 THEN\n    RETURN x\n  ENDIF\nENDFUNCTION\nOUTPUT f(1)\nOUTPUT f(0)\n',
    'e_file': 'OPENFILE "none.txt" FOR READ\nOUTPUT "x"\n',
    'e_file2': 'DECLARE s : STRING\nOPENFILE "w.txt" FOR WRITE\nWRITEFILE "w.txt", "data"\nREADFILE "w.txt", s\nOUTPUT s\n',
    'e_date': 'x <- 30/2/2001\nOUTPUT x\n',
    'e_cond': 'IF 5 THEN\nOUTPUT 1\nENDIF\n',
    'e_while': 'x <- 1\nWHILE x DO\n  x <- 0\nENDWHILE\n',
    'e_case': 'x <- 1\nCASE OF x\n  1 / 0: OUTPUT "a"\n  2: OUTPUT "b"\nENDCASE\n',
    'e_until': 'REPEAT\n  OUTPUT 1\nUNTIL "x"\n',
    'e_break': 'OUTPUT 1\nBREAK\nOUTPUT 2\n',
    'e_const': 'CONSTANT c = 1\nOUTPUT c\nc <- 2\n',
    's_missing': 'OUTPUT 1\nIF TRUE THEN\nOUTPUT 2\nOUTPUT 3\n',
    's_paren': 'OUTPUT 1\nx <- (1 + 2\nOUTPUT x\n',
    's_op': 'OUTPUT 1\nx <- 1 +\nOUTPUT x\n',
    's_char': 'OUTPUT 1\nx <- 5 $ 3\n',
    's_str': 'OUTPUT 1\nx <- "abc\n',
    's_chr': "OUTPUT 1\nx <- 'ab'\n",
    's_kw': 'OUTPUT 1\nENDIF\nOUTPUT 2\n',
    's_decl': 'OUTPUT 1\nDECLARE x INTEGER\n',
    's_eqeq': 'x <- 1\nIF x == 1 THEN\nOUTPUT 1\nENDIF\n',
    's_next': 'FOR i <- 1 TO 2\nOUTPUT i\nENDWHILE\n',
    's_type': 'TYPE R\nDECLARE n INTEGER\nENDTYPE\n',
    's_two': 'x <- 1 y <- 2\nOUTPUT x\n',
    's_escape': 'OUTPUT 1\nx <- "a\\qb"\n',
    's_proc': 'PROCEDURE p(x INTEGER)\nENDPROCEDURE\n',
    's_case': 'x <- 1\nCASE OF x\n1 OUTPUT 1\nENDCASE\n',
    's_ioparen': 'OUTPUT 1\nOUTPUT("x")\n',
}
