"""Executable reference model of the pseudocode language.

Written from Syntax.md, grammar.txt and the property list; it shares no code with the
interpreter.  Text is handled as latin-1 strings (one character = one byte).

Where neither the documentation nor the properties fix a behaviour, the model raises
Unspecified; the caller then only checks that the real run ends in an orderly way.
Behaviours with two admissible conventions are selected by `Opts` flags and reported in
Model.touched, so that the caller can retry with the other convention.
"""
import math
import re

I64 = 1 << 64
IMAX = (1 << 63) - 1
IMIN = -(1 << 63)


class Unspecified(Exception):
    pass


class Budget(Exception):
    """The execution exceeds the bounds of the exploration."""


class SyntaxErr(Exception):
    def __init__(self, line, col=None, what=''):
        self.line, self.col, self.what = line, col, what


class PedanticErr(Exception):
    def __init__(self, line, what=''):
        self.line, self.what = line, what


class RtErr(Exception):
    def __init__(self, fr, line, what=''):
        self.what = what
        chain = [(fr.name, line)]
        f = fr.parent
        while f is not None:
            chain.append((f.name, f.call_line))
            f = f.parent
        self.chain = chain


class BreakSig(Exception):
    def __init__(self, line):
        self.line = line


class ContinueSig(Exception):
    def __init__(self, line):
        self.line = line


class ReturnSig(Exception):
    pass


def wrap(x):
    if IMIN <= x <= IMAX:
        return x
    x &= I64 - 1
    return x - I64 if x >> 63 else x


# ---------------------------------------------------------------- lexer

KEYWORDS = set('''DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF
OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE
CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM
SEEK GETRECORD PUTRECORD'''.split())
DATATYPES = {'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE'}
IO_NOPAREN = {'INPUT', 'OUTPUT', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE'}
ESC = {'n': '\n', 't': '\t', "'": "'", '"': '"', '\\': '\\'}


class Tok:
    __slots__ = ('t', 'v', 'line', 'col')

    def __init__(self, t, v, line, col):
        self.t, self.v, self.line, self.col = t, v, line, col

    def __repr__(self):
        return 'Tok(%r,%r,%d)' % (self.t, self.v, self.line)


_WORD = re.compile(r'[A-Za-z][A-Za-z0-9_]*')
_NUM = re.compile(r'[0-9]+(\.[0-9]*)?')
_DATE = re.compile(r'[0-9]+/[0-9]+/[0-9]+')
_OPS2 = {'>=': '>=', '<=': '<=', '<>': '<>', '<-': '<-'}


def lex(src, pedantic=False):
    src = src.replace('\r', '')
    toks = []
    add = toks.append
    i, n, line, start = 0, len(src), 1, 0  # start: index of the first character of the line
    while i < n:
        c = src[i]
        if c == ' ' or c == '\t':
            i += 1
            continue
        col = i - start + 1
        if c == '\n':
            add(Tok('NL', None, line, col))
            i += 1
            line += 1
            start = i
            continue
        m = _WORD.match(src, i)
        if m:
            w = m.group()
            i = m.end()
            if w == 'PRINT':
                w = 'OUTPUT'
            if w in KEYWORDS:
                add(Tok(w, None, line, col))
                if pedantic and (w == 'BREAK' or w == 'CONTINUE'):
                    raise PedanticErr(line, w)
            elif w in DATATYPES:
                add(Tok('DT', w, line, col))
            else:
                add(Tok('ID', w, line, col))
            continue
        if c.isdigit() and c in '0123456789':
            m = _DATE.match(src, i)
            if m:
                add(Tok('DATE', m.group(), line, col))
            else:
                m = _NUM.match(src, i)
                add(Tok('REAL' if m.group(1) is not None else 'INT', m.group(), line, col))
            i = m.end()
            continue
        if c == '/':
            if src.startswith('//', i):
                j = src.find('\n', i)
                i = n if j < 0 else j
                continue
            add(Tok('/', None, line, col))
            i += 1
            continue
        if c == "'":
            j = i + 1
            if j + 1 >= n or src[j] == "'":
                raise SyntaxErr(line, col, 'char')
            v = src[j]
            lin2 = line
            if v == '\\':
                j += 1
                if j >= n or src[j] not in ESC:
                    raise SyntaxErr(line, col, 'escape')
                v = ESC[src[j]]
            elif v == '\n':
                lin2 = line + 1
            if j + 1 >= n or src[j + 1] != "'":
                raise SyntaxErr(lin2 if v == '\n' and src[j] == '\n' else line, col, 'quote')
            if lin2 != line:
                line = lin2
                start = j + 1
            add(Tok('CHAR', v, line, col))
            i = j + 2
            continue
        if c == '"':
            j = i + 1
            out = []
            while j < n and src[j] != '"':
                d = src[j]
                if d == '\\':
                    j += 1
                    if j >= n or src[j] not in ESC:
                        raise SyntaxErr(line, None, 'escape')
                    out.append(ESC[src[j]])
                else:
                    if d == '\n':
                        line += 1
                        start = j + 1
                    out.append(d)
                j += 1
            if j >= n:
                raise SyntaxErr(line, None, 'quote')
            add(Tok('STRING', ''.join(out), line, col))
            i = j + 1
            continue
        if c == '(':
            if toks and i > 0 and src[i - 1] not in ' \t' and toks[-1].t in IO_NOPAREN:
                raise SyntaxErr(line, col, 'paren')
            add(Tok('(', None, line, col))
            i += 1
            continue
        two = src[i:i + 2]
        if two == '==':
            raise SyntaxErr(line, col, '==')
        if two in _OPS2:
            add(Tok(two, None, line, col))
            i += 2
            continue
        if c in '+-*)[]=:,&^.<>':
            add(Tok(c, None, line, col))
            i += 1
            continue
        raise SyntaxErr(line, col, 'character')
    add(Tok('EOF', None, line, n - start + 1))
    return toks


# ---------------------------------------------------------------- types and storage

class Ty:
    __slots__ = ('k', 'name', 'names', 'target', 'fields', 'scope')

    def __init__(self, k, name=None):
        self.k = k
        self.name = name or k
        self.names = self.target = self.fields = self.scope = None

    def __repr__(self):
        return self.name


INT, REAL, BOOL, CHAR, STR, DATE = (Ty(x) for x in ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE'))
NONE = Ty('NONE')
BASIC = {t.k: t for t in (INT, REAL, BOOL, CHAR, STR, DATE)}
NUMERIC = (INT, REAL)
PRIM = {INT, REAL, BOOL, CHAR, STR, DATE}
NOTHING = (NONE, None)


class Cell:
    __slots__ = ('ty', 'v', 'const', 'act', 'name')

    def __init__(self, ty, v, act, const=False, name=''):
        self.ty, self.v, self.act, self.const, self.name = ty, v, act, const, name


class Arr:
    __slots__ = ('ty', 'dims', 'cells', 'name')

    def __init__(self, ty, dims, cells, name=''):
        self.ty, self.dims, self.cells, self.name = ty, dims, cells, name


class Rec:
    """A record value: its fields in declaration order."""
    __slots__ = ('ty', 'f')

    def __init__(self, ty):
        self.ty = ty
        self.f = {}

    def copy(self, act):
        r = Rec(self.ty)
        for k, x in self.f.items():
            r.f[k] = copy_holder(x, act)
        return r


def copy_value(ty, v, act):
    return v.copy(act) if ty.k == 'COMPOSITE' else v


def copy_holder(x, act):
    if isinstance(x, Arr):
        return Arr(x.ty, x.dims, [copy_holder(c, act) for c in x.cells], x.name)
    return Cell(x.ty, copy_value(x.ty, x.v, act), act, x.const, x.name)


def store(dst, src):
    """Copies the contents of one holder into another one of the same shape, keeping identities."""
    if isinstance(dst, Arr):
        for a, b in zip(dst.cells, src.cells):
            store(a, b)
    elif dst.ty.k == 'COMPOSITE':
        store_rec(dst.v, src.v)
    else:
        dst.v = src.v


def store_rec(dst, src):
    for k, x in dst.f.items():
        store(x, src.f[k])


def same_shape(a, b):
    if isinstance(a, Arr):
        return a.ty is b.ty and a.dims == b.dims and all(same_shape(x, y) for x, y in zip(a.cells, b.cells))
    if a.ty is not b.ty:
        return False
    return a.ty.k != 'COMPOSITE' or same_rec_shape(a.v, b.v)


def same_rec_shape(a, b):
    return all(same_shape(x, b.f[k]) for k, x in a.f.items())


class Frame:
    __slots__ = ('id', 'name', 'parent', 'vars', 'enums', 'types', 'glob', 'call_line', 'isfn', 'rty', 'rv', 'rec_ty')
    counter = 0

    def __init__(self, name, parent, glob=None):
        Frame.counter += 1
        self.id = Frame.counter
        self.name, self.parent = name, parent
        self.glob = glob
        self.vars = {}
        self.types = {}
        self.enums = {}
        self.call_line = None
        self.isfn = False
        self.rty = self.rv = None
        self.rec_ty = None


class Proc:
    __slots__ = ('name', 'params', 'body', 'rty', 'line', 'native')

    def __init__(self, name, params, body, rty, line, native=None):
        self.name, self.params, self.body, self.rty, self.line, self.native = name, params, body, rty, line, native


# ---------------------------------------------------------------- formatting

def fmt_real(x):
    if math.isnan(x) or math.isinf(x):
        raise Unspecified('non-finite REAL')
    s = '%.10g' % x
    if x == math.floor(x):
        s += '.0'
    return s


def real_to_str(x):
    if math.isnan(x) or math.isinf(x):
        raise Unspecified('non-finite REAL')
    s = ('%f' % x).rstrip('0')
    return s[:-1] if s.endswith('.') else s


def to_str(ty, v):
    if ty is STR or ty is CHAR:
        return v
    if ty is INT:
        return str(v)
    if ty is BOOL:
        return 'TRUE' if v else 'FALSE'
    if ty is REAL:
        return real_to_str(v)
    return '%d/%d/%d' % v


_STRTOL = re.compile(r'[ \t\n\v\f\r]*([+-]?[0-9]+)\Z')
_NUMERAL = re.compile(r'([0-9]+\.?[0-9]*|\.[0-9]+)\Z')
_ANYNUM = re.compile(r'[ \t\n\v\f\r]*[+-]?(?:([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|0[xX][0-9a-fA-F.]+([pP][+-]?[0-9]+)?)\Z')


def str_to_int(s):
    if '\0' in s:
        return 0
    m = _STRTOL.match(s)
    if not m:
        return 0
    x = int(m.group(1))
    if not IMIN <= x <= IMAX:
        raise Unspecified('numeral out of range')
    return x


def str_to_real(s):
    if '\0' in s:
        return 0.0
    if _NUMERAL.match(s):
        x = float(s)
        if math.isinf(x):
            raise Unspecified('numeral out of range')
        return x
    m = _ANYNUM.match(s)
    if not m:
        return 0.0
    if 'x' in s or 'X' in s:
        raise Unspecified('hexadecimal numeral')
    x = float(s.strip(' \t\n\v\f\r'))
    if math.isinf(x):
        raise Unspecified('numeral out of range')
    return x


def real_to_int(x):
    if math.isnan(x) or math.isinf(x) or not -9.2e18 < x < 9.2e18:
        raise Unspecified('REAL out of INTEGER range')
    return int(x)


def floor_int(x):
    if math.isnan(x) or math.isinf(x) or not -9.2e18 < x < 9.2e18:
        raise Unspecified('REAL out of INTEGER range')
    return math.floor(x)


MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def valid_date(d, m, y):
    if not (-32767 <= y <= 32767) or not 1 <= m <= 12 or d < 1:
        return False
    n = MDAYS[m - 1]
    if m == 2 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0):
        n = 29
    return d <= n


def day_index(d, m, y):
    """Sunday = 1 (Zeller-like counting of days from a known Sunday)."""
    # days since 1/3/0000 (proleptic Gregorian)
    if m <= 2:
        y -= 1
        m += 12
    days = 365 * y + y // 4 - y // 100 + y // 400 + (153 * (m - 3) + 2) // 5 + d - 1
    return (days + 3) % 7 + 1


# ---------------------------------------------------------------- AST

class N:
    __slots__ = ('line',)


class Lit(N):
    __slots__ = ('val',)

    def __init__(self, line, val):
        self.line, self.val = line, val

    def ev(self, m, fr):
        return self.val


class DateLit(N):
    __slots__ = ('val',)

    def __init__(self, line, text):
        self.line = line
        d, mo, y = (int(x) for x in text.split('/'))
        self.val = (d, mo, y) if valid_date(d, mo, y) else None

    def ev(self, m, fr):
        if self.val is None:
            raise RtErr(fr, self.line, 'date')
        return (DATE, self.val)


class Neg(N):
    __slots__ = ('e',)

    def __init__(self, line, e):
        self.line, self.e = line, e

    def ev(self, m, fr):
        ty, v = self.e.ev(m, fr)
        if ty is INT:
            return (INT, wrap(-v))
        if ty is REAL:
            return (REAL, -v)
        raise RtErr(fr, self.line, 'negate')


def idiv(m, a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
        if m.floor_div and q * b != a:
            q -= 1
    if a < 0 or b < 0:
        m.touched.add('floor_div')
    return wrap(q)


class Arith(N):
    __slots__ = ('op', 'a', 'b')

    def __init__(self, line, op, a, b):
        self.line, self.op, self.a, self.b = line, op, a, b

    def ev(self, m, fr):
        ta, a = self.a.ev(m, fr)
        tb, b = self.b.ev(m, fr)
        op = self.op
        if ta is INT and tb is INT:
            if op == '+':
                return (INT, wrap(a + b))
            if op == '-':
                return (INT, wrap(a - b))
            if op == '*':
                return (INT, wrap(a * b))
            if b == 0:
                raise RtErr(fr, self.line, 'zero')
            if op == '/':
                return (REAL, float(a) / float(b))
            q = idiv(m, a, b)
            if op == 'DIV':
                return (INT, q)
            return (INT, wrap(a - q * b))
        if ta.k == 'ENUM' and tb is INT and op in '+-':
            return (ta, (a + b if op == '+' else a - b) % len(ta.names))
        if tb.k == 'ENUM' and ta is INT and op in '+-':
            if op == '-':
                m.touched.add('int_minus_enum')
            return (tb, (a + b if op == '+' else a - b) % len(tb.names))
        if (ta is not INT and ta is not REAL) or (tb is not INT and tb is not REAL):
            raise RtErr(fr, self.line, 'operand')
        try:
            x, y = float(a), float(b)
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            else:
                if y == 0:
                    raise RtErr(fr, self.line, 'zero')
                if op == '/':
                    r = x / y
                elif op == 'DIV':
                    if x < 0 or y < 0:
                        m.touched.add('trunc_real')
                        if m.trunc_real:
                            return (INT, real_to_int(x / y))
                    return (INT, floor_int(x / y))
                else:
                    z = x / y
                    if math.isnan(z) or math.isinf(z):
                        raise Unspecified('non-finite')
                    if x < 0 or y < 0:
                        m.touched.add('trunc_real')
                        if m.trunc_real:
                            z -= math.trunc(z)
                            return (REAL, z * y)
                    z -= math.floor(z)
                    r = z * y
        except OverflowError:
            raise Unspecified('REAL overflow')
        return (REAL, r)


def date_key(v):
    return (v[2], v[1], v[0])


class Cmp(N):
    __slots__ = ('op', 'a', 'b')

    def __init__(self, line, op, a, b):
        self.line, self.op, self.a, self.b = line, op, a, b

    def ev(self, m, fr):
        ta, a = self.a.ev(m, fr)
        tb, b = self.b.ev(m, fr)
        op = self.op
        num = (ta is INT or ta is REAL) and (tb is INT or tb is REAL)
        if num:
            if ta is not tb:  # promoted to REAL
                a, b = float(a), float(b)
        elif ta is CHAR and tb is CHAR:
            a, b = ord(a), ord(b)
            if a > 127 or b > 127:
                if op not in ('=', '<>'):
                    raise Unspecified('order of non-ASCII characters')
        elif ta is DATE and tb is DATE:
            a, b = date_key(a), date_key(b)
        else:
            if op != '=' and op != '<>':
                raise RtErr(fr, self.line, 'operand')
            if ta is not tb:
                return (BOOL, op == '<>')
            if ta.k not in ('BOOLEAN', 'STRING', 'ENUM'):
                raise RtErr(fr, self.line, 'operand')
        if op == '=':
            return (BOOL, a == b)
        if op == '<>':
            return (BOOL, a != b)
        if op == '<':
            return (BOOL, a < b)
        if op == '<=':
            return (BOOL, a <= b)
        if op == '>':
            return (BOOL, a > b)
        return (BOOL, a >= b)


class Cat(N):
    __slots__ = ('a', 'b')

    def __init__(self, line, a, b):
        self.line, self.a, self.b = line, a, b

    def ev(self, m, fr):
        ta, a = self.a.ev(m, fr)
        tb, b = self.b.ev(m, fr)
        if ta not in PRIM or tb not in PRIM:
            raise RtErr(fr, self.line, '&')
        r = to_str(ta, a) + to_str(tb, b)
        if len(r) > m.max_string:
            raise Budget()
        return (STR, r)


class Logic(N):
    __slots__ = ('op', 'a', 'b')

    def __init__(self, line, op, a, b):
        self.line, self.op, self.a, self.b = line, op, a, b

    def ev(self, m, fr):
        ta, a = self.a.ev(m, fr)
        if self.op == 'AND' and ta is BOOL and not a:
            return (BOOL, False)
        tb, b = self.b.ev(m, fr)
        if ta is not BOOL or tb is not BOOL:
            raise RtErr(fr, self.line, 'logic')
        return (BOOL, (a and b) if self.op == 'AND' else (a or b))


class Not(N):
    __slots__ = ('e',)

    def __init__(self, line, e):
        self.line, self.e = line, e

    def ev(self, m, fr):
        t, v = self.e.ev(m, fr)
        if t is not BOOL:
            raise RtErr(fr, self.line, 'NOT')
        return (BOOL, not v)


class Cast(N):
    __slots__ = ('to', 'e')

    def __init__(self, line, to, e):
        self.line, self.to, self.e = line, to, e

    def ev(self, m, fr):
        t, v = self.e.ev(m, fr)
        to = self.to
        if t not in PRIM:
            raise RtErr(fr, self.line, 'cast')
        if t is DATE and to not in (DATE, STR):
            raise Unspecified('cast of a date')
        if t is to:
            return (t, v)
        if to is DATE:
            raise RtErr(fr, self.line, 'cast')
        return (to, convert(t, v, to))


def convert(t, v, to):
    if to is STR:
        return to_str(t, v)
    if t is STR:
        if to is INT:
            return str_to_int(v)
        if to is REAL:
            return str_to_real(v)
        if to is BOOL:
            return len(v) > 0
        raise Unspecified('STRING to CHAR cast')
    n = v
    if t is CHAR:
        n = ord(v)
        if n > 127:
            raise Unspecified('code of a non-ASCII character')
    elif t is BOOL:
        n = 1 if v else 0
    if to is INT:
        return real_to_int(n) if t is REAL else n
    if to is REAL:
        return float(n)
    if to is BOOL:
        return n != 0
    if to is CHAR:
        k = real_to_int(n) if t is REAL else n
        if not -128 <= k <= 255 or (t is REAL and not 0 <= k <= 127):
            raise Unspecified('character code')
        return chr(k & 255)
    raise Unspecified('cast')


class Access(N):
    __slots__ = ('r',)

    def __init__(self, line, r):
        self.line, self.r = line, r

    def ev(self, m, fr):
        x = self.holder(m, fr)
        if x.__class__ is Cell:
            ty = x.ty
            return (ty, x.v.copy(0)) if ty.k == 'COMPOSITE' else (ty, x.v)
        if x.__class__ is Arr:
            raise RtErr(fr, self.line, 'array')
        return x

    def holder(self, m, fr):
        """A Cell, an Arr or (for the name of an enumerated value) a value."""
        r = self.r
        if r.__class__ is VarRef:
            x = m.lookup(fr, r.name)
            if x is None:
                e = m.enum_element(fr, r.name)
                if e is None:
                    raise RtErr(fr, r.line, 'undefined')
                return e
            return x
        return r.resolve(m, fr)


class VarRef(N):
    __slots__ = ('name',)

    def __init__(self, line, name):
        self.line, self.name = line, name

    def resolve(self, m, fr):
        x = m.lookup(fr, self.name)
        if x is None:
            raise RtErr(fr, self.line, 'undefined')
        return x


class Deref(N):
    __slots__ = ('r',)

    def __init__(self, line, r):
        self.line, self.r = line, r

    def resolve(self, m, fr):
        x = self.r.resolve(m, fr)
        if x.__class__ is Arr or x.ty.k != 'POINTER':
            raise RtErr(fr, self.line, 'dereference')
        cell, act = x.v
        if cell is None or not m.active(fr, act):
            raise RtErr(fr, self.line, 'dead pointer')
        return cell


class Field(N):
    __slots__ = ('r', 'name')

    def __init__(self, line, r, name):
        self.line, self.r, self.name = line, r, name

    def resolve(self, m, fr):
        x = self.r.resolve(m, fr)
        if x.__class__ is Arr or x.ty.k != 'COMPOSITE':
            raise RtErr(fr, self.line, 'field')
        f = x.v.f.get(self.name)
        if f is None:
            raise RtErr(fr, self.line, 'field')
        return f


class Elem(N):
    __slots__ = ('r', 'idx')

    def __init__(self, line, r, idx):
        self.line, self.r, self.idx = line, r, idx

    def resolve(self, m, fr):
        x = self.r.resolve(m, fr)
        if x.__class__ is not Arr:
            raise RtErr(fr, self.line, 'index')
        dims = x.dims
        if len(dims) != len(self.idx):
            raise RtErr(fr, self.line, 'indices')
        off, mul = 0, 1
        for e, (lo, hi) in zip(self.idx, dims):
            t, v = e.ev(m, fr)
            if t is not INT or not lo <= v <= hi:
                raise RtErr(fr, e.line, 'index')
            off += (v - lo) * mul
            mul *= hi - lo + 1
        return x.cells[off]


def implicit(ty, val):
    t, v = val
    if t is ty:
        return val
    if ty is REAL and t is INT:
        return (REAL, float(v))
    if ty is CHAR and t is STR and len(v) == 1:
        return (CHAR, v)
    if ty is STR and t is CHAR:
        return (STR, v)
    return val


class Assign(N):
    __slots__ = ('r', 'e')

    def __init__(self, line, r, e):
        self.line, self.r, self.e = line, r, e

    def ev(self, m, fr):
        e = self.e
        if e.__class__ is Access:
            x = e.holder(m, fr)
            if x.__class__ is Arr:
                d = self.r.resolve(m, fr)
                if d.__class__ is not Arr:
                    raise RtErr(fr, self.line, 'array')
                if d.ty is not x.ty or d.dims != x.dims or not same_shape(d, x):
                    raise RtErr(fr, self.line, 'array')
                if d is not x:
                    store(d, x)
                return NOTHING
            if x.__class__ is Cell:
                val = (x.ty, x.v.copy(0)) if x.ty.k == 'COMPOSITE' else (x.ty, x.v)
            else:
                val = x
        else:
            val = e.ev(m, fr)
        if val[0] is NONE:
            raise RtErr(fr, self.line, 'no value')
        r = self.r
        if r.__class__ is VarRef:
            c = m.lookup(fr, r.name)
            if c is None:
                if m.is_type_name(fr, r.name):
                    raise RtErr(fr, r.line, 'undefined')
                if m.pedantic:
                    raise PedanticErr(self.line, 'undeclared')
                fr.vars[r.name] = Cell(val[0], copy_value(val[0], val[1], fr.id), fr.id, False, r.name)
                return NOTHING
        else:
            c = r.resolve(m, fr)
        if c.__class__ is Arr:
            raise RtErr(fr, self.line, 'array')
        if c.const:
            raise RtErr(fr, self.line, 'constant')
        val = implicit(c.ty, val)
        if val[0] is not c.ty:
            raise RtErr(fr, self.line, 'type')
        if c.ty.k == 'COMPOSITE':
            if not same_rec_shape(c.v, val[1]):
                raise RtErr(fr, self.line, 'shape')
            store_rec(c.v, val[1])
        else:
            c.v = val[1]
        return NOTHING


class PtrAssign(N):
    __slots__ = ('r', 'target')

    def __init__(self, line, r, target):
        self.line, self.r, self.target = line, r, target

    def ev(self, m, fr):
        p = self.r.resolve(m, fr)
        if p.__class__ is Arr:
            raise RtErr(fr, self.line, 'array')
        x = self.target.resolve(m, fr)
        if x.__class__ is Arr:
            raise RtErr(fr, self.line, 'array')
        if p.ty.k != 'POINTER' or p.ty.target is not x.ty:
            raise RtErr(fr, self.line, 'type')
        p.v = (x, x.act)
        return NOTHING


class Call(N):
    """A function call (expression) or CALL statement."""
    __slots__ = ('name', 'args', 'fn')

    def __init__(self, line, name, args, fn):
        self.line, self.name, self.args, self.fn = line, name, args, fn

    def ev(self, m, fr):
        p = (m.functions if self.fn else m.procedures).get(self.name)
        line = self.line
        if p is None:
            raise RtErr(fr, line, 'undefined')
        params = p.params
        refs, vals = [], []
        for i, a in enumerate(self.args):
            if i < len(params) and params[i][2] and a.__class__ is Access:
                x = a.r.resolve(m, fr)
                if x.__class__ is Arr:
                    raise RtErr(fr, line, 'array')
                refs.append(x)
                vals.append(None)
            else:
                refs.append(None)
                vals.append(a.ev(m, fr))
        if len(vals) != len(params):
            raise RtErr(fr, line, 'arguments')
        sub = Frame(p.name, fr, m.glob)
        for (name, ty, byref), ref, val in zip(params, refs, vals):
            if byref:
                if ref is None:
                    raise RtErr(fr, line, 'reference')
                if ref.ty is not ty:
                    raise RtErr(fr, line, 'arguments')
                if name not in sub.vars:
                    sub.vars[name] = ref
            else:
                val = implicit(ty, val)
                if val[0] is not ty:
                    raise RtErr(fr, line, 'arguments')
                if name not in sub.vars:
                    sub.vars[name] = Cell(ty, copy_value(ty, val[1], sub.id), sub.id, False, name)
        fr.call_line = line
        if p.native is not None:
            rv = p.native(m, sub, *[v[1] if params[i][1] is not REAL or v[0] is REAL else float(v[1])
                                    for i, v in enumerate(vals)])
            fr.call_line = None
            return (p.rty, rv)
        if self.fn:
            sub.isfn = True
            sub.rty = p.rty
        m.depth += 1
        if m.depth > m.max_depth:
            raise Budget()
        try:
            m.run_block(p.body, sub)
        except ReturnSig:
            pass
        except BreakSig as s:
            raise RtErr(sub, s.line, 'BREAK')
        except ContinueSig as s:
            raise RtErr(sub, s.line, 'CONTINUE')
        m.depth -= 1
        if self.fn:
            if sub.rv is None:
                raise RtErr(sub, p.line, 'missing RETURN')
            fr.call_line = None
            return sub.rv
        fr.call_line = None
        return NOTHING


# ---- statements (ev returns NOTHING)

class Declare(N):
    __slots__ = ('names', 'ty')

    def __init__(self, line, names, ty):
        self.line, self.names, self.ty = line, names, ty

    def ev(self, m, fr):
        for n in self.names:
            if n in fr.vars:
                raise RtErr(fr, self.line, 'redeclaration')
            if m.is_type_name(fr, n):
                raise RtErr(fr, self.line, 'type name')
            ty = m.get_type(fr, self.ty)
            if ty is None:
                raise RtErr(fr, self.line, 'type')
            m.check_inside(fr, ty, self.line)
            fr.call_line = self.line
            fr.vars[n] = Cell(ty, m.default(fr, ty), m.act_of(fr), False, n)
            fr.call_line = None
        return NOTHING


class DeclareArr(N):
    __slots__ = ('names', 'ty', 'bounds')

    def __init__(self, line, names, ty, bounds):
        self.line, self.names, self.ty, self.bounds = line, names, ty, bounds

    def ev(self, m, fr):
        seen = set()
        for n in self.names:
            if n in fr.vars or n in seen:
                raise RtErr(fr, self.line, 'redeclaration')
            seen.add(n)
        dims = []
        size = 1
        for lo, hi in self.bounds:
            t, a = lo.ev(m, fr)
            if t is not INT:
                raise RtErr(fr, lo.line, 'bound')
            t, b = hi.ev(m, fr)
            if t is not INT:
                raise RtErr(fr, hi.line, 'bound')
            if b < a:
                raise RtErr(fr, hi.line, 'bound')
            dims.append((a, b))
            size *= b - a + 1
        for n in self.names:
            ty = m.get_type(fr, self.ty)
            if ty is None:
                raise RtErr(fr, self.line, 'type')
            m.check_inside(fr, ty, self.line)
            if m.is_type_name(fr, n):
                raise Unspecified('array named like a type')
            if size > m.max_cells:
                raise Budget()
            m.max_cells -= size
            fr.call_line = self.line
            act = m.act_of(fr)
            cells = [Cell(ty, m.default(fr, ty), act, False, n) for _ in range(size)]
            fr.call_line = None
            fr.vars[n] = Arr(ty, dims, cells, n)
        return NOTHING


class Const(N):
    __slots__ = ('name', 'e')

    def __init__(self, line, name, e):
        self.line, self.name, self.e = line, name, e

    def ev(self, m, fr):
        t, v = self.e.ev(m, fr)
        if self.name in fr.vars:
            raise RtErr(fr, self.line, 'redeclaration')
        fr.vars[self.name] = Cell(t, v, fr.id, True, self.name)
        return NOTHING


class TypeEnum(N):
    __slots__ = ('name', 'names')

    def __init__(self, line, name, names):
        self.line, self.name, self.names = line, name, names

    def ev(self, m, fr):
        if m.is_type_name(fr, self.name, False):
            raise RtErr(fr, self.line, 'redefinition')
        t = Ty('ENUM', self.name)
        t.names = self.names
        fr.types[self.name] = t
        for i, n in enumerate(self.names):
            if n not in fr.enums:
                fr.enums[n] = (t, i)
        return NOTHING


class TypePtr(N):
    __slots__ = ('name', 'ty')

    def __init__(self, line, name, ty):
        self.line, self.name, self.ty = line, name, ty

    def ev(self, m, fr):
        ty = m.get_type(fr, self.ty)
        if ty is None:
            raise RtErr(fr, self.line, 'type')
        if m.is_type_name(fr, self.name, False):
            raise RtErr(fr, self.line, 'redefinition')
        t = Ty('POINTER', self.name)
        t.target = ty
        fr.types[self.name] = t
        return NOTHING


class TypeRec(N):
    __slots__ = ('name', 'fields')

    def __init__(self, line, name, fields):
        self.line, self.name, self.fields = line, name, fields

    def ev(self, m, fr):
        if m.is_type_name(fr, self.name, False):
            raise RtErr(fr, self.line, 'redefinition')
        t = Ty('COMPOSITE', self.name)
        t.fields = self.fields
        t.scope = fr
        fr.types[self.name] = t
        return NOTHING


class If(N):
    __slots__ = ('parts',)

    def __init__(self, line, parts):
        self.line, self.parts = line, parts

    def ev(self, m, fr):
        for c, body in self.parts:
            if c is not None:
                t, v = c.ev(m, fr)
                if t is not BOOL:
                    raise RtErr(fr, self.line, 'condition')
                if not v:
                    continue
            m.run_block(body, fr)
            break
        return NOTHING


class Case(N):
    __slots__ = ('e', 'clauses')

    def __init__(self, line, e, clauses):
        self.line, self.e, self.clauses = line, e, clauses

    def ev(self, m, fr):
        t, v = self.e.ev(m, fr)
        for lo, hi, body in self.clauses:
            if lo is None:
                pass
            elif hi is None:
                tc, c = lo.ev(m, fr)
                if t in NUMERIC and tc in NUMERIC:
                    if t is not tc:
                        c, w = float(c), float(v)
                    else:
                        w = v
                    if c != w:
                        continue
                elif t is not tc:
                    continue
                elif t.k == 'COMPOSITE' or t.k == 'POINTER':
                    raise Unspecified('CASE of a pointer or record')
                elif c != v:
                    continue
            else:
                if t not in NUMERIC:
                    # nothing but a number lies between two numbers; other bounds are left open
                    if not all(b.__class__ is Lit and b.val[0] in NUMERIC for b in (lo, hi)):
                        raise Unspecified('range of a non-numeric type')
                    continue
                ta, a = lo.ev(m, fr)
                if ta not in NUMERIC:
                    raise RtErr(fr, lo.line, 'bound')
                tb, b = hi.ev(m, fr)
                if tb not in NUMERIC:
                    raise RtErr(fr, hi.line, 'bound')
                if ta is INT and tb is INT and t is INT:
                    if not a <= v <= b:
                        continue
                elif not float(a) <= float(v) <= float(b):
                    continue
            m.run_block(body, fr)
            break
        return NOTHING


class While(N):
    __slots__ = ('c', 'body')

    def __init__(self, line, c, body):
        self.line, self.c, self.body = line, c, body

    def ev(self, m, fr):
        while True:
            t, v = self.c.ev(m, fr)
            if t is not BOOL:
                raise RtErr(fr, self.line, 'condition')
            if not v:
                break
            m.step()
            try:
                m.run_block(self.body, fr)
            except BreakSig:
                break
            except ContinueSig:
                pass
        return NOTHING


class Repeat(N):
    __slots__ = ('c', 'body')

    def __init__(self, line, c, body):
        self.line, self.c, self.body = line, c, body

    def ev(self, m, fr):
        while True:
            m.step()
            try:
                m.run_block(self.body, fr)
            except BreakSig:
                break
            except ContinueSig:
                pass
            t, v = self.c.ev(m, fr)
            if t is not BOOL:
                raise RtErr(fr, self.line, 'condition')
            if v:
                break
        return NOTHING


class For(N):
    __slots__ = ('name', 'start', 'stop', 'step', 'body')

    def __init__(self, line, name, start, stop, step, body):
        self.line, self.name, self.start, self.stop, self.step, self.body = line, name, start, stop, step, body

    def ev(self, m, fr):
        c = m.lookup(fr, self.name)
        if c is None:
            if m.is_type_name(fr, self.name):
                raise Unspecified('iterator named like a type')
            c = fr.vars[self.name] = Cell(INT, 0, fr.id, False, self.name)
        if c.__class__ is Arr or c.const or c.ty is not INT:
            raise RtErr(fr, self.line, 'iterator')
        t, start = self.start.ev(m, fr)
        if t is not INT:
            raise RtErr(fr, self.line, 'start')
        t, stop = self.stop.ev(m, fr)
        if t is not INT:
            raise RtErr(fr, self.line, 'stop')
        step = 1
        if self.step is not None:
            t, step = self.step.ev(m, fr)
            if t is not INT:
                raise RtErr(fr, self.line, 'step')
        c.v = start
        while (c.v >= stop) if step < 0 else (c.v <= stop):
            m.step()
            try:
                m.run_block(self.body, fr)
            except BreakSig:
                break
            except ContinueSig:
                pass
            n = c.v + step
            if not IMIN <= n <= IMAX:
                raise Unspecified('iterator overflow')
            c.v = n
            if step == 0:
                m.step()
        return NOTHING


class Break(N):
    def __init__(self, line):
        self.line = line

    def ev(self, m, fr):
        raise BreakSig(self.line)


class Continue(N):
    def __init__(self, line):
        self.line = line

    def ev(self, m, fr):
        raise ContinueSig(self.line)


class Return(N):
    __slots__ = ('e',)

    def __init__(self, line, e):
        self.line, self.e = line, e

    def ev(self, m, fr):
        if not fr.isfn:
            raise RtErr(fr, self.line, 'RETURN')
        val = self.e.ev(m, fr)
        if val[0] is NONE:
            raise RtErr(fr, self.line, 'return type')
        val = implicit(fr.rty, val)
        if val[0] is not fr.rty:
            raise RtErr(fr, self.line, 'return type')
        fr.rv = val
        raise ReturnSig()


class ProcDef(N):
    __slots__ = ('name', 'params', 'body', 'rty')

    def __init__(self, line, name, params, body, rty):
        self.line, self.name, self.params, self.body, self.rty = line, name, params, body, rty

    def ev(self, m, fr):
        table = m.functions if self.rty is not None else m.procedures
        if self.name in table:
            raise RtErr(fr, self.line, 'redefinition')
        rty = None
        if self.rty is not None:
            rty = m.get_type(fr, self.rty)
            if rty is None:
                raise RtErr(fr, self.rty.line, 'type')
        ps = []
        for name, ty, byref in self.params:
            t = m.get_type(fr, ty)
            if t is None:
                raise RtErr(fr, ty.line, 'type')
            ps.append((name, t, byref))
        if len(set(p[0] for p in ps)) != len(ps):
            m.touched.add('duplicate parameters')
            raise Unspecified('duplicate parameters')
        table[self.name] = Proc(self.name, ps, self.body, rty, self.line)
        return NOTHING


class Output(N):
    __slots__ = ('es',)

    def __init__(self, line, es):
        self.line, self.es = line, es

    def ev(self, m, fr):
        for e in self.es:
            t, v = e.ev(m, fr)
            k = t.k
            if k == 'REAL':
                s = fmt_real(v)
            elif k == 'ENUM':
                s = t.names[v]
            elif k == 'COMPOSITE' or k == 'POINTER':
                s = t.name + ' object'
            elif k == 'NONE':
                raise RtErr(fr, e.line, 'no value')
            else:
                s = to_str(t, v)
            m.emit(s)
        m.emit('\n')
        return NOTHING


class Input(N):
    __slots__ = ('r',)

    def __init__(self, line, r):
        self.line, self.r = line, r

    def ev(self, m, fr):
        r = self.r
        if r.__class__ is VarRef:
            c = m.lookup(fr, r.name)
            if c is None:
                if m.is_type_name(fr, r.name):
                    raise RtErr(fr, r.line, 'undefined')
                if m.pedantic:
                    raise PedanticErr(r.line, 'undeclared')
                c = fr.vars[r.name] = Cell(STR, '', fr.id, False, r.name)
        else:
            c = r.resolve(m, fr)
        if c.__class__ is Arr:
            raise RtErr(fr, self.line, 'array')
        if c.const:
            raise RtErr(fr, self.line, 'constant')
        s = m.read_line()
        t = c.ty
        if t is INT:
            c.v = str_to_int(s)
        elif t is REAL:
            c.v = str_to_real(s)
        elif t is BOOL:
            c.v = s == 'TRUE'
        elif t is CHAR:
            if s == '':
                raise RtErr(fr, self.line, 'empty')
            if len(s) > 1:
                raise Unspecified('INPUT of several characters into CHAR')
            c.v = s[0]
        elif t is STR:
            c.v = s
        else:
            raise RtErr(fr, self.line, 'type')
        return NOTHING


def filename(m, fr, e, line):
    t, v = e.ev(m, fr)
    if t is not STR:
        raise RtErr(fr, line, 'file name')
    return v


class OpenFile(N):
    __slots__ = ('e', 'mode')

    def __init__(self, line, e, mode):
        self.line, self.e, self.mode = line, e, mode

    def ev(self, m, fr):
        n = filename(m, fr, self.e, self.line)
        if n in m.handles or not m.fs.open(m, n, self.mode):
            raise RtErr(fr, self.line, 'open')
        return NOTHING


def handle(m, fr, line, n, modes):
    h = m.handles.get(n)
    if h is None or h.mode not in modes:
        raise RtErr(fr, line, 'handle')
    return h


class ReadFile(N):
    __slots__ = ('e', 'name')

    def __init__(self, line, e, name):
        self.line, self.e, self.name = line, e, name

    def ev(self, m, fr):
        h = handle(m, fr, self.line, filename(m, fr, self.e, self.line), ('READ',))
        c = m.lookup(fr, self.name)
        if c is None:
            if m.is_type_name(fr, self.name):
                raise Unspecified('READFILE into a type name')
            c = fr.vars[self.name] = Cell(STR, '', fr.id, False, self.name)
        if c.__class__ is Arr or c.const or c.ty is not STR:
            raise RtErr(fr, self.line, 'variable')
        if h.pos >= len(h.data):
            raise Unspecified('READFILE past the end')
        j = h.data.find('\n', h.pos)
        if j < 0:
            c.v = h.data[h.pos:]
            h.pos = len(h.data)
        else:
            c.v = h.data[h.pos:j]
            h.pos = j + 1
        return NOTHING


class WriteFile(N):
    __slots__ = ('e', 'd')

    def __init__(self, line, e, d):
        self.line, self.e, self.d = line, e, d

    def ev(self, m, fr):
        n = filename(m, fr, self.e, self.line)
        t, v = self.d.ev(m, fr)
        h = handle(m, fr, self.line, n, ('WRITE', 'APPEND'))
        if t not in PRIM:
            raise RtErr(fr, self.line, 'value')
        s = to_str(t, v)
        if '\n' in s:
            m.touched.add('newline in text line')
        h.write(m, s)
        return NOTHING


class CloseFile(N):
    __slots__ = ('e',)

    def __init__(self, line, e):
        self.line, self.e = line, e

    def ev(self, m, fr):
        n = filename(m, fr, self.e, self.line)
        h = handle(m, fr, self.line, n, ('READ', 'WRITE', 'APPEND', 'RANDOM'))
        h.close(m)
        del m.handles[n]
        return NOTHING


class Seek(N):
    __slots__ = ('e', 'a')

    def __init__(self, line, e, a):
        self.line, self.e, self.a = line, e, a

    def ev(self, m, fr):
        t, v = self.a.ev(m, fr)
        if t is not INT or v < 1:
            raise RtErr(fr, self.line, 'address')
        h = handle(m, fr, self.line, filename(m, fr, self.e, self.line), ('RANDOM',))
        if v > len(h.recs) + 1:
            raise RtErr(fr, self.line, 'address')
        h.pos = v - 1
        return NOTHING


def has_pointer(x):
    if x.__class__ is Arr:
        return x.ty.k == 'POINTER' or any(has_pointer(c) for c in x.cells[:1])
    if x.ty.k == 'POINTER':
        return True
    return x.ty.k == 'COMPOSITE' and any(has_pointer(f) for f in x.v.f.values())


def describe(x):
    """(descriptor, value) of a holder; both are immutable."""
    if x.__class__ is Arr:
        ds = [describe(c) for c in x.cells]
        return (('ARRAY', tuple(x.dims), tuple(d[0] for d in ds)), tuple(d[1] for d in ds))
    k = x.ty.k
    if k == 'ENUM':
        return (('ENUM', x.ty.name, len(x.ty.names)), x.v)
    if k == 'COMPOSITE':
        names = list(x.v.f)
        ds = [describe(x.v.f[n]) for n in names]
        return (('COMPOSITE', x.ty.name, tuple(names), tuple(d[0] for d in ds)), tuple(d[1] for d in ds))
    return ((k,), x.v)


def match(a, b):
    """Whether a record described by a fits a variable described by b (None: not specified)."""
    if a == b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'ARRAY':
        if len(a[2]) != len(b[2]):
            return False
        if any(match(x, y) is False for x, y in zip(a[2], b[2])):
            return False
        return None
    if a[0] == 'ENUM':
        return False if a[1] != b[1] else None
    if a[1] != b[1]:
        return False
    if a[0] == 'COMPOSITE':
        # two types of one name: different when some field is of another kind (plain fields are compared before arrays)
        x, y = ([d for d in t[3] if d[0] != 'ARRAY'] + [d for d in t[3] if d[0] == 'ARRAY'] for t in (a, b))
        if len(x) != len(y) or any(match(p, q) is False for p, q in zip(x, y)):
            return False
        return None
    return False


def fill(x, v):
    if x.__class__ is Arr:
        for c, y in zip(x.cells, v):
            fill(c, y)
    elif x.ty.k == 'COMPOSITE':
        for f, y in zip(x.v.f.values(), v):
            fill(f, y)
    else:
        x.v = v


class GetRecord(N):
    __slots__ = ('e', 'name', 'put')

    def __init__(self, line, e, name, put):
        self.line, self.e, self.name, self.put = line, e, name, put

    def ev(self, m, fr):
        h = handle(m, fr, self.line, filename(m, fr, self.e, self.line), ('RANDOM',))
        x = m.lookup(fr, self.name)
        if x is None:
            raise RtErr(fr, self.line, 'undefined')
        if x.ty.k == 'POINTER':
            raise RtErr(fr, self.line, 'pointer')
        if has_pointer(x):
            raise Unspecified('record with pointers')
        if self.put:
            d, v = describe(x)
            if h.pos == len(h.recs):
                h.recs.append((d, v))
            else:
                h.recs[h.pos] = (d, v)
            h.dirty = True
            return NOTHING
        if x.__class__ is Cell and x.const:
            raise RtErr(fr, self.line, 'constant')
        if h.pos >= len(h.recs):
            raise RtErr(fr, self.line, 'no record')
        d, v = h.recs[h.pos]
        ok = match(d, describe(x)[0])
        if ok is None:
            raise Unspecified('record of a similar type')
        if not ok:
            raise RtErr(fr, self.line, 'record type')
        fill(x, v)
        return NOTHING


# ---------------------------------------------------------------- parser

BLOCK_END = {'EOF', 'ENDIF', 'OTHERWISE', 'ENDCASE', 'ELSE', 'ENDWHILE', 'UNTIL', 'NEXT', 'ENDPROCEDURE', 'ENDFUNCTION'}
NUM_TOO_BIG = float('inf')


class Parser:
    def __init__(self, toks, pedantic=False):
        self.toks, self.pedantic = toks, pedantic
        self.i = 0
        self.c = toks[0]
        self.warned = False

    def adv(self):
        c = self.c
        if self.i + 1 < len(self.toks):
            self.i += 1
            self.c = self.toks[self.i]
        return c

    def fail(self):
        raise SyntaxErr(self.c.line, self.c.col, 'token')

    def need(self, t):
        if self.c.t != t:
            self.fail()
        return self.adv()

    def skip_nl(self):
        while self.c.t == 'NL':
            self.adv()

    def peek(self, n=1):
        j = self.i + n
        return self.toks[j].t if j < len(self.toks) else None

    def parse(self):
        b = self.block(True)
        if self.c.t != 'EOF':
            self.fail()
        return b

    def block(self, main=False, case=False):
        out = []
        while True:
            self.skip_nl()
            if self.c.t in BLOCK_END:
                return out
            if case and self.c.t != 'DECLARE':
                j = self.i + 1
                end = False
                while j < len(self.toks):
                    t = self.toks[j].t
                    if t == ':':
                        end = True
                        break
                    if t == 'NL':
                        break
                    j += 1
                if end:
                    return out
            if self.c.t in ('PROCEDURE', 'FUNCTION'):
                if not main:
                    self.fail()
                out.append(self.procdef(self.c.t == 'FUNCTION'))
            else:
                s = self.statement()
                if s.__class__ is Cmp and s.a.__class__ is Access:
                    self.warned = True
                out.append(s)
            if self.c.t not in ('NL', 'EOF'):
                self.fail()

    def statement(self):
        t = self.c.t
        f = getattr(self, 's_' + t, None) if t.isalpha() else None
        return f() if f else self.expr()

    def s_DECLARE(self):
        line = self.adv().line
        names = [self.need('ID').v]
        while self.c.t == ',':
            self.adv()
            names.append(self.need('ID').v)
        self.need(':')
        if self.c.t == 'ARRAY':
            self.adv()
            self.need('[')
            bounds = []
            while True:
                lo = self.arith()
                self.need(':')
                hi = self.arith()
                bounds.append((lo, hi))
                if self.c.t != ',':
                    break
                self.adv()
            self.need(']')
            self.need('OF')
            return DeclareArr(line, names, self.typename(), bounds)
        return Declare(line, names, self.typename())

    def typename(self):
        if self.c.t not in ('DT', 'ID'):
            self.fail()
        return self.adv()

    def s_CONSTANT(self):
        line = self.adv().line
        name = self.need('ID').v
        if self.c.t not in ('=', '<-'):
            self.fail()
        self.adv()
        neg = None
        if self.c.t == '-':
            neg = self.adv()
        if self.c.t not in ('INT', 'REAL', 'TRUE', 'FALSE', 'CHAR', 'STRING'):
            self.fail()
        e = self.literal()
        if neg:
            e = Neg(neg.line, e)
        return Const(line, name, e)

    def literal(self):
        c = self.adv()
        t = c.t
        if t == 'INT':
            v = int(c.v)
            if v > IMAX:
                raise SyntaxErr(c.line, c.col, 'integer')
            return Lit(c.line, (INT, v))
        if t == 'REAL':
            v = float(c.v)
            if math.isinf(v):
                raise SyntaxErr(c.line, c.col, 'real')
            return Lit(c.line, (REAL, v))
        if t == 'TRUE' or t == 'FALSE':
            return Lit(c.line, (BOOL, t == 'TRUE'))
        if t == 'CHAR':
            return Lit(c.line, (CHAR, c.v))
        return Lit(c.line, (STR, c.v))

    def s_TYPE(self):
        line = self.adv().line
        self.skip_nl()
        name = self.need('ID').v
        if self.c.t != '=':
            if self.c.t != 'NL':
                self.fail()
            self.skip_nl()
            fields = []
            while self.c.t == 'DECLARE':
                fields.append(self.s_DECLARE())
                if self.c.t != 'NL':
                    self.fail()
                self.skip_nl()
            self.need('ENDTYPE')
            return TypeRec(line, name, fields)
        self.adv()
        if self.c.t == '^':
            self.adv()
            return TypePtr(line, name, self.typename())
        if self.c.t == '(':
            self.adv()
            names = []
            while True:
                names.append(self.need('ID').v)
                if self.c.t == ',':
                    self.adv()
                elif self.c.t == ')':
                    break
                else:
                    self.fail()
            self.adv()
            return TypeEnum(line, name, names)
        self.fail()

    def s_IF(self):
        line = self.adv().line
        parts = []
        c = self.expr()
        self.skip_nl()
        self.need('THEN')
        parts.append((c, self.block()))
        while self.c.t == 'ELSE':
            self.adv()
            if self.c.t == 'IF':
                if self.pedantic:
                    raise PedanticErr(self.c.line, 'ELSE IF')
                self.adv()
                c = self.expr()
                self.skip_nl()
                self.need('THEN')
                parts.append((c, self.block()))
            else:
                parts.append((None, self.block()))
                break
        self.need('ENDIF')
        return If(line, parts)

    def s_CASE(self):
        line = self.adv().line
        self.need('OF')
        n = self.need('ID')
        self.skip_nl()
        e = Access(n.line, VarRef(n.line, n.v))
        clauses = []
        while self.c.t != 'ENDCASE':
            if self.c.t == 'OTHERWISE':
                self.adv()
                self.need(':')
                clauses.append((None, None, self.block(case=True)))
                if self.c.t != 'ENDCASE':
                    self.fail()
                break
            lo = self.expr()
            hi = None
            if self.c.t == 'TO':
                self.adv()
                hi = self.expr()
            self.need(':')
            clauses.append((lo, hi, self.block(case=True)))
        self.adv()
        return Case(line, e, clauses)

    def s_WHILE(self):
        line = self.adv().line
        c = self.expr()
        self.skip_nl()
        if self.c.t == 'DO':
            self.adv()
        b = self.block()
        self.need('ENDWHILE')
        return While(line, c, b)

    def s_REPEAT(self):
        line = self.adv().line
        b = self.block()
        self.need('UNTIL')
        return Repeat(line, self.expr(), b)

    def s_FOR(self):
        line = self.adv().line
        name = self.need('ID').v
        self.need('<-')
        a = self.arith()
        self.need('TO')
        b = self.arith()
        s = None
        if self.c.t == 'STEP':
            self.adv()
            s = self.arith()
        body = self.block()
        self.need('NEXT')
        if self.c.t == 'ID':
            if self.c.v != name:
                self.fail()
            self.adv()
        return For(line, name, a, b, s, body)

    def s_CALL(self):
        line = self.adv().line
        name = self.need('ID').v
        args = []
        if self.c.t == '(':
            args = self.args()
        return Call(line, name, args, False)

    def args(self):
        self.adv()
        out = []
        if self.c.t == ')':
            self.adv()
            return out
        out.append(self.expr())
        while self.c.t == ',':
            self.adv()
            out.append(self.expr())
        self.need(')')
        return out

    def s_OUTPUT(self):
        line = self.adv().line
        es = [self.expr()]
        while self.c.t == ',':
            self.adv()
            es.append(self.expr())
        return Output(line, es)

    def s_INPUT(self):
        line = self.adv().line
        if self.c.t != 'ID':
            self.fail()
        return Input(line, self.ident())

    s_READ = s_INPUT

    def s_OPENFILE(self):
        line = self.adv().line
        e = self.string()
        self.need('FOR')
        if self.c.t not in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
            self.fail()
        return OpenFile(line, e, self.adv().t)

    def s_READFILE(self):
        line = self.adv().line
        e = self.string()
        self.need(',')
        return ReadFile(line, e, self.need('ID').v)

    def s_WRITEFILE(self):
        line = self.adv().line
        e = self.string()
        self.need(',')
        return WriteFile(line, e, self.expr())

    def s_CLOSEFILE(self):
        line = self.adv().line
        return CloseFile(line, self.string())

    def s_SEEK(self):
        line = self.adv().line
        e = self.string()
        self.need(',')
        return Seek(line, e, self.expr())

    def s_GETRECORD(self):
        line = self.adv().line
        e = self.string()
        self.need(',')
        return GetRecord(line, e, self.need('ID').v, False)

    def s_PUTRECORD(self):
        line = self.adv().line
        e = self.string()
        self.need(',')
        return GetRecord(line, e, self.need('ID').v, True)

    def s_RETURN(self):
        line = self.adv().line
        return Return(line, self.expr())

    def s_BREAK(self):
        return Break(self.adv().line)

    def s_CONTINUE(self):
        return Continue(self.adv().line)

    def procdef(self, fn):
        line = self.adv().line
        name = self.need('ID').v
        params = []
        if self.c.t == '(':
            self.adv()
            byref = False
            pending = []
            first = True
            while self.c.t != ')':
                if not first:
                    self.need(',')
                first = False
                if self.c.t in ('BYREF', 'BYVAL'):
                    byref = self.adv().t == 'BYREF'
                pn = self.need('ID').v
                pending.append((pn, byref))
                if self.c.t == ':':
                    self.adv()
                    ty = self.typename()
                    params += [(p, ty, b) for p, b in pending]
                    pending = []
                elif self.c.t != ',':
                    self.fail()
            if pending:
                self.fail()
            self.adv()
        rty = None
        if fn:
            self.skip_nl()
            self.need('RETURNS')
            rty = self.typename()
        body = self.block()
        self.need('ENDFUNCTION' if fn else 'ENDPROCEDURE')
        return ProcDef(line, name, params, body, rty)

    # expressions
    def expr(self):
        a = self.logical()
        while self.c.t in ('=', '<>'):
            o = self.adv()
            a = Cmp(o.line, o.t, a, self.logical())
        return a

    def logical(self):
        a = self.comparison()
        while self.c.t in ('AND', 'OR'):
            o = self.adv()
            a = Logic(o.line, o.t, a, self.comparison())
        return a

    def comparison(self):
        if self.c.t == 'NOT':
            o = self.adv()
            return Not(o.line, self.comparison())
        a = self.string()
        while self.c.t in ('=', '<>', '<', '<=', '>', '>='):
            o = self.adv()
            a = Cmp(o.line, o.t, a, self.string())
        return a

    def string(self):
        a = self.arith()
        while self.c.t == '&':
            o = self.adv()
            a = Cat(o.line, a, self.arith())
        return a

    def arith(self):
        a = self.term()
        while self.c.t in ('+', '-'):
            o = self.adv()
            a = Arith(o.line, o.t, a, self.term())
        return a

    def term(self):
        a = self.factor()
        while self.c.t in ('*', '/', 'DIV', 'MOD'):
            o = self.adv()
            a = Arith(o.line, o.t, a, self.factor())
        return a

    def factor(self):
        if self.c.t == '-':
            o = self.adv()
            return Neg(o.line, self.atom())
        return self.atom()

    def atom(self):
        c = self.c
        t = c.t
        if t in ('INT', 'REAL', 'TRUE', 'FALSE', 'CHAR', 'STRING'):
            return self.literal()
        if t == 'DATE':
            self.adv()
            return DateLit(c.line, c.v)
        if t == 'ID':
            if self.peek() == '(':
                self.adv()
                return Call(c.line, c.v, self.args(), True)
            r = self.ident()
            if self.c.t == '<-':
                o = self.adv()
                if self.c.t == '^':
                    p = self.adv()
                    if self.c.t != 'ID':
                        self.fail()
                    return PtrAssign(p.line, r, self.ident())
                return Assign(o.line, r, self.expr())
            return Access(c.line, r)
        if t == '(':
            self.adv()
            e = self.expr()
            self.need(')')
            return e
        if t == 'DT':
            if self.pedantic:
                raise PedanticErr(c.line, 'cast')
            self.adv()
            self.need('(')
            e = self.expr()
            self.need(')')
            return Cast(c.line, BASIC[c.v], e)
        if t in ('MOD', 'DIV') and self.peek() == '(':
            self.adv()
            self.adv()
            a = self.expr()
            self.need(',')
            b = self.expr()
            self.need(')')
            return Arith(c.line, t, a, b)
        self.fail()

    def ident(self):
        c = self.adv()
        r = VarRef(c.line, c.v)
        while True:
            t = self.c.t
            if t == '.':
                o = self.adv()
                r = Field(o.line, r, self.need('ID').v)
            elif t == '^':
                r = Deref(self.adv().line, r)
            elif t == '[':
                o = self.adv()
                idx = [self.arith()]
                while self.c.t == ',':
                    self.adv()
                    idx.append(self.arith())
                self.need(']')
                r = Elem(o.line, r, idx)
            else:
                return r


# ---------------------------------------------------------------- files

class Random:
    """Abstract contents of a random file: a sequence of (descriptor, value)."""
    __slots__ = ('recs',)

    def __init__(self, recs=()):
        self.recs = tuple(recs)

    def __eq__(self, o):
        return isinstance(o, Random) and o.recs == self.recs

    def __hash__(self):
        return hash(self.recs)

    def __repr__(self):
        return 'Random(%r)' % (self.recs,)


class Handle:
    __slots__ = ('name', 'mode', 'data', 'pos', 'recs', 'dirty', 'partial')

    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.data, self.pos, self.recs, self.dirty, self.partial = '', 0, None, False, False

    def write(self, m, s):
        cur = m.fs.files[self.name]
        if self.partial:
            cur += '\n'
            self.partial = False
        m.fs.files[self.name] = cur + s + '\n'

    def close(self, m):
        if self.mode == 'RANDOM' and self.dirty:
            m.fs.files[self.name] = Random(self.recs)


class FS:
    """The directory the program runs in."""

    def __init__(self, files=None, dirs=(), noread=(), nowrite=()):
        self.files = dict(files or {})
        self.dirs, self.noread, self.nowrite = set(dirs), set(noread), set(nowrite)

    def open(self, m, n, mode):
        if '\0' in n or n == '' or len(n) > 255:
            return False
        if n in self.dirs:
            return False
        if '/' in n:
            head, tail = n.rsplit('/', 1)
            if head not in self.dirs or not tail:
                if head in ('.', '..', '') or head.startswith('/') or head.startswith('.'):
                    raise Unspecified('path')
                return False
        exists = n in self.files
        if not exists and mode in ('READ', 'APPEND'):
            return False
        if n in self.nowrite and mode in ('WRITE', 'APPEND'):
            return False
        if n in self.noread and mode in ('READ', 'RANDOM'):
            return False
        if n in self.nowrite and mode == 'RANDOM':
            raise Unspecified('random access to a read-only file')
        h = Handle(n, mode)
        if mode == 'READ':
            h.data = self.files[n]
            if not isinstance(h.data, str):
                raise Unspecified('reading a random file as text')
        elif mode == 'WRITE':
            self.files[n] = ''
        elif mode == 'APPEND':
            if not isinstance(self.files[n], str):
                raise Unspecified('appending to a random file')
            cur = self.files[n]
            h.partial = cur != '' and not cur.endswith('\n')
        else:
            if not exists:
                self.files[n] = Random()
            cur = self.files[n]
            if isinstance(cur, str):
                if cur.strip('\n') != '':
                    raise Unspecified('foreign random file')
                h.recs = []
            else:
                h.recs = list(cur.recs)
        m.handles[n] = h
        return True


# ---------------------------------------------------------------- built-ins

def _b(params, rty):
    def deco(f):
        f.sig = (params, rty)
        return f
    return deco


def _err(m, sub):
    raise RtErr(sub, None, 'built-in')


@_b([STR], INT)
def f_LENGTH(m, s, x):
    return len(x)


@_b([STR, INT], STR)
def f_LEFT(m, s, x, n):
    if n < 0 or n > len(x):
        _err(m, s)
    return x[:n]


@_b([STR, INT], STR)
def f_RIGHT(m, s, x, n):
    if n < 0 or n > len(x):
        _err(m, s)
    return x[len(x) - n:]


@_b([STR, INT, INT], STR)
def f_MID(m, s, x, i, n):
    if i < 1 or n < 0 or i - 1 + n > len(x):
        _err(m, s)
    if i > len(x):
        # position len+1 with length 0: the empty string or an error
        if i == len(x) + 1 and n == 0:
            m.touched.add('mid_end')
            if m.mid_end:
                return ''
        _err(m, s)
    return x[i - 1:i - 1 + n]


def _ascii_upper(x):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in x)


def _ascii_lower(x):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in x)


@_b([STR], STR)
def f_TO_UPPER(m, s, x):
    return _ascii_upper(x)


@_b([STR], STR)
def f_TO_LOWER(m, s, x):
    return _ascii_lower(x)


@_b([CHAR], CHAR)
def f_UCASE(m, s, x):
    return _ascii_upper(x)


@_b([CHAR], CHAR)
def f_LCASE(m, s, x):
    return _ascii_lower(x)


@_b([CHAR], INT)
def f_ASC(m, s, x):
    if ord(x) > 127:
        raise Unspecified('code of a non-ASCII character')
    return ord(x)


@_b([INT], CHAR)
def f_CHR(m, s, n):
    if not 0 <= n <= 127:
        if -128 <= n <= 255:
            m.touched.add('chr_range')
            return chr(n & 255)
        raise Unspecified('CHR out of range')
    return chr(n)


@_b([REAL], STR)
def f_NUM_TO_STR(m, s, x):
    return real_to_str(x)


@_b([STR], REAL)
def f_STR_TO_NUM(m, s, x):
    return str_to_real(x)


@_b([STR], BOOL)
def f_IS_NUM(m, s, x):
    if _NUMERAL.match(x):
        return True
    if x == '' or x == '.':
        raise Unspecified('IS_NUM of no digits')
    if _ANYNUM.match(x):
        raise Unspecified('IS_NUM of a signed or scaled numeral')
    return False


@_b([STR], BOOL)
def f_EOF(m, s, n):
    h = m.handles.get(n)
    if h is None or h.mode != 'READ':
        _err(m, s)
    return h.pos >= len(h.data)


@_b([DATE], INT)
def f_DAY(m, s, d):
    return d[0]


@_b([DATE], INT)
def f_MONTH(m, s, d):
    return d[1]


@_b([DATE], INT)
def f_YEAR(m, s, d):
    return d[2]


@_b([DATE], INT)
def f_DAYINDEX(m, s, d):
    if not valid_date(*d):
        raise Unspecified('unset date')
    return day_index(*d)


@_b([INT, INT, INT], DATE)
def f_SETDATE(m, s, d, mo, y):
    if not valid_date(d, mo, y):
        _err(m, s)
    return (d, mo, y)


@_b([REAL], INT)
def f_INT(m, s, x):
    return floor_int(x)


@_b([INT], REAL)
def f_RAND(m, s, x):
    raise Unspecified('RAND')


def _unspec(m, s, *a):
    raise Unspecified('clock')


def _math(f):
    def g(m, s, *a):
        try:
            r = f(*a)
        except (ValueError, OverflowError):
            raise Unspecified('domain')
        return r
    return g


NATIVE = {}
for _n, _f in list(globals().items()):
    if _n.startswith('f_'):
        NATIVE[_n[2:]] = (_f,) + _f.sig
for _n, _r in (('TODAY', DATE), ('TIME', INT), ('HOURS', INT), ('MINUTES', INT), ('SECONDS', INT)):
    NATIVE[_n] = (_unspec, [], _r)
for _n, _f in (('EXP', math.exp), ('SIN', math.sin), ('COS', math.cos), ('TAN', math.tan), ('ASIN', math.asin),
               ('ACOS', math.acos), ('ATAN', math.atan), ('SQRT', math.sqrt), ('LOG', math.log10), ('LN', math.log)):
    NATIVE[_n] = (_math(_f), [REAL], REAL)
NATIVE['POW'] = (_math(math.pow), [REAL, REAL], REAL)
NATIVE['ATAN2'] = (_math(math.atan2), [REAL, REAL], REAL)
NATIVE_PROCS = {n: Proc(n, [('#%d' % i, t, False) for i, t in enumerate(ps)], None, r, None, f)
                for n, (f, ps, r) in NATIVE.items()}


# ---------------------------------------------------------------- the machine

class Outcome:
    """What one run of the interpreter must show."""
    __slots__ = ('status', 'out', 'errors', 'warned')

    def __init__(self, status, out, errors, warned):
        self.status, self.out, self.errors, self.warned = status, out, errors, warned


VERSION = '1.0.1'
MULTI = {'IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION', 'TYPE'}


class Model:
    def __init__(self, fs=None, stdin='', pedantic=False, echo=True, steps=20000, depth=60, cells=20000,
                 max_string=1 << 16, floor_div=False, trunc_real=False, mid_end=False):
        self.fs = fs or FS()
        self.pedantic, self.echo = pedantic, echo
        self.floor_div, self.trunc_real, self.mid_end = floor_div, trunc_real, mid_end
        self.touched = set()
        self.lines = stdin.split('\n')
        if self.lines[-1] == '':
            self.lines.pop()
        self.lpos = 0
        self.max_steps, self.max_depth, self.max_cells, self.max_string = steps, depth, cells, max_string
        self.nsteps = 0
        self.depth = 0
        self.outbuf = []
        self.errors = []
        self.repl = False
        self.warned = False
        self.reset_global()

    def reset_global(self):
        self.glob = Frame('Program', None)
        self.glob.glob = self.glob
        self.handles = {}
        self.functions = dict(NATIVE_PROCS)
        self.procedures = {}

    def emit(self, s):
        self.outbuf.append(s)

    def read_line(self, prompt=''):
        """None at the end of the input when a prompt is given."""
        if self.lpos >= len(self.lines):
            if self.echo and prompt:
                self.emit(prompt)
            return None if prompt else ''
        s = self.lines[self.lpos]
        self.lpos += 1
        if self.echo:
            self.emit(prompt + s + '\n')
        else:
            self.emit(prompt)
        return s

    def step(self):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise Budget()

    # names
    def lookup(self, fr, name):
        x = fr.vars.get(name)
        if x is None and fr is not self.glob:
            x = self.glob.vars.get(name)
        return x

    def scopes(self, fr, wide=True):
        """Frames in which a type name is looked up."""
        yield fr
        if not wide:
            return
        if fr.rec_ty is not None:
            s = fr.rec_ty.scope
            yield s
            if s is not self.glob:
                yield self.glob
        elif fr is not self.glob:
            yield self.glob

    def get_type(self, fr, tok):
        if tok.t == 'DT':
            return BASIC[tok.v]
        for f in self.scopes(fr):
            t = f.types.get(tok.v)
            if t is not None:
                return t
        return None

    def enum_element(self, fr, name):
        for f in self.scopes(fr):
            e = f.enums.get(name)
            if e is not None:
                return e
        return None

    def is_type_name(self, fr, name, wide=True):
        for f in self.scopes(fr, wide):
            if name in f.types or name in f.enums:
                return True
        return False

    def check_inside(self, fr, ty, line):
        f = fr
        while f is not None and f.rec_ty is not None:
            if f.rec_ty is ty:
                raise RtErr(fr, line, 'contains itself')
            f = f.parent

    def act_of(self, fr):
        while fr.rec_ty is not None:
            fr = fr.parent
        return fr.id

    def active(self, fr, act):
        while fr is not None:
            if fr.id == act:
                return True
            fr = fr.parent
        return False

    def default(self, fr, ty):
        k = ty.k
        if k == 'INTEGER':
            return 0
        if k == 'REAL':
            return 0.0
        if k == 'BOOLEAN':
            return False
        if k == 'CHAR':
            return '\0'
        if k == 'STRING':
            return ''
        if k == 'DATE':
            return (0, 0, 0)
        if k == 'ENUM':
            return 0
        if k == 'POINTER':
            return (None, None)
        r = Rec(ty)
        sub = Frame(ty.name, fr, self.glob)
        sub.rec_ty = ty
        sub.vars = r.f
        self.depth += 1
        if self.depth > self.max_depth:
            raise Budget()
        for d in ty.fields:
            self.step()
            d.ev(self, sub)
        self.depth -= 1
        return r

    # execution
    def run_block(self, stmts, fr):
        self.depth += 1
        if self.depth > self.max_depth:
            raise Budget()
        d = self.depth
        try:
            if self.repl:
                for s in stmts:
                    self.step()
                    self.show(s.ev(self, fr), fr)
            else:
                for s in stmts:
                    self.nsteps += 1
                    if self.nsteps > self.max_steps:
                        raise Budget()
                    s.ev(self, fr)
        finally:
            self.depth = d - 1

    def show(self, val, fr):
        t, v = val
        k = t.k
        if k == 'NONE':
            return
        if k == 'REAL':
            s = fmt_real(v)
        elif k == 'CHAR':
            s = "'" + v + "'"
        elif k == 'STRING':
            s = '"' + v + '"'
        elif k == 'ENUM':
            s = t.name + ': ' + t.names[v]
        elif k == 'POINTER':
            if v[0] is None or not self.active(fr, v[1]):
                self.touched.add('pointer echo')
                s = t.name + ': {DELETED}'
            else:
                s = t.name + ': ' + v[0].name
        elif k == 'COMPOSITE':
            s = t.name + ' object'
        else:
            s = to_str(t, v)
        self.emit(s + '\n')

    def run_main(self, stmts):
        try:
            self.run_block(stmts, self.glob)
        except BreakSig as s:
            raise RtErr(self.glob, s.line, 'BREAK')
        except ContinueSig as s:
            raise RtErr(self.glob, s.line, 'CONTINUE')

    def close_all(self):
        for h in self.handles.values():
            h.close(self)
        self.handles = {}

    def parse(self, src):
        p = Parser(lex(src, self.pedantic), self.pedantic)
        b = p.parse()
        self.warned |= p.warned
        return b

    def guarded(self, f):
        """Runs f; records the diagnostic and returns False if it fails."""
        try:
            f()
            return True
        except SyntaxErr as e:
            self.errors.append(('syntax', e.line, None))
        except PedanticErr as e:
            self.errors.append(('pedantic', e.line, None))
        except RtErr as e:
            self.errors.append(('runtime', e.chain[0][1], e.chain))
        except RecursionError:
            raise Budget()
        self.depth = 0
        f = self.glob
        return False

    def run_file(self, src):
        """File mode: returns the exit status."""
        if src and not src.endswith('\n'):
            src += '\n'

        def go():
            b = self.parse(src)
            self.program = b
            self.run_main(b)
        ok = self.guarded(go)
        if not ok:
            self.emit('\n')
        if self.handles:
            self.close_all()
        self.outcome_status = 0 if ok else 1
        return self.outcome_status

    def run_repl(self):
        """REPL over self.lines: the exit status is 0."""
        self.repl = True
        self.emit('PseudoEngine2 v%s REPL\nEnter \'?\' for help, \'EXIT\' to quit\n' % VERSION)
        self.entry_marks = []
        while True:
            code = self.read_line('> ')
            if code is None:
                break
            if code == '':
                continue
            if code == '?':
                self.emit('Visit https://github.com/SingularityT3/PseudoEngine2 for syntax, examples and more info\n'
                          'Use `RUNFILE <filename>` to run programs stored in files\n')
                continue
            if code == 'EXIT':
                break
            m = re.match(r'[ \t]*([A-Za-z0-9_]*)', code)
            word = m.group(1)
            if word == 'RUNFILE' and code.startswith('RUNFILE'):
                self.runfile(code)
                continue
            if word in MULTI and not (word == 'TYPE' and '=' in code.split('//')[0]):
                end = False
                while True:
                    line = self.read_line('. ')
                    if line is None:
                        end = True
                        break
                    code += '\n' + line
                    if line == '':
                        break
                if end:
                    break

            def go():
                b = self.parse(code)
                self.run_main(b)
            if not self.guarded(go):
                self.emit('\n')
        self.close_all()
        return 0

    def runfile(self, code):
        if len(code) < 9:
            raise Unspecified('RUNFILE without name')
        name = code[8:].rstrip(' \t')
        self.emit("==> Running file '%s'\n" % name)
        content = self.fs.files.get(name)
        if not isinstance(content, str):
            raise Unspecified('RUNFILE of a missing file')
        sub = Model(self.fs, '', self.pedantic, self.echo, self.max_steps, self.max_depth, self.max_cells, self.max_string,
                    self.floor_div, self.trunc_real, self.mid_end)
        sub.lines, sub.lpos = self.lines, self.lpos
        sub.nsteps = self.nsteps
        sub.touched = self.touched
        st = sub.run_file(content)
        self.nsteps = sub.nsteps
        self.lpos = sub.lpos
        self.outbuf += sub.outbuf
        self.errors += sub.errors
        self.emit('\n==> Program exited %s\n' % ('successfully' if st == 0 else 'with an error'))

    @property
    def out(self):
        return ''.join(self.outbuf)
