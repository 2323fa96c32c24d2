"""C10: layout, comments and line endings never change what a program does."""
import itertools

import client
import psref
from engine import Mismatch, check_lines, strip_warnings, norm_out
from corpus import PROGRAMS, STDIN, FILES
import scale

INFO = dict(
    rule='a corpus with every construct (valid and failing) x every layout edit (spaces/tabs before every token, indentation and trailing blanks on every line, '
         'blank/comment lines at every line boundary, trailing comments of every kind on every line, CRLF, missing or extra final newlines) at every position, and '
         'all pairs of such edits for the short programs; each edited program must behave as the original and as the model, with line numbers moved exactly',
    assumptions=["the rejection of '(' directly after an I/O keyword is documented and not altered by an edit"],
    technique='exhaustive enumeration of layout edits at every position, compared with the unedited run and the reference model')

GAPS = [' ', '\t', '   ', ' \t ']
INDENT = [' ', '\t', '    ', '\t\t ']
TRAIL = [' ', '\t', '  \t']
LINES = ['\n', '   \n', '\t\n', '// c\n', '  // c\n', '//\n', '\n\n', '// "open\n', "// it's\n", '// IF x THEN\n', '//// x\n', '\t// ENDIF\n', '// tab\there\n', '// \\\n', '// a\n// b\n', '\n// x\n\n', '// 1/2/2000\n', '//x\xe9\xff\n']
COMMENTS = ['// c', '//', ' // c', '\t//c', '// "open', "// '", '// THEN', '//// x', '// \\', '// x <- 5', '// 5/2', '//\xc3\xa9', '// ends with space ', ' //)', '// //', '/// c', '// : , [ ( ^']


class Prog:
    """A program with the places where its layout can be edited."""

    def __init__(self, name):
        self.name = name
        self.src = s = PROGRAMS[name]
        starts = [0]
        for i, c in enumerate(s):
            if c == '\n':
                starts.append(i + 1)
        self.starts = starts
        self.nlines = len(starts) - 1
        self.tokens = []
        try:
            toks = psref.lex(s)
            first = set()
            for t in toks:
                if t.t in ('NL', 'EOF'):
                    continue
                pos = starts[t.line - 1] + t.col - 1
                if t.line not in first:
                    first.add(t.line)
                    continue
                if t.t == '(' and s[pos - 1] not in ' \t' and any(s[:pos].endswith(k) for k in psref.IO_NOPAREN | {'PRINT', 'READ'}):
                    continue
                self.tokens.append(pos)
        except psref.SyntaxErr:
            pass

    def edits(self):
        """(position, inserted text, lines inserted, line before which they go)"""
        s = self.src
        out = []
        for p in self.tokens:
            for g in GAPS:
                out.append((p, g))
        open_str = self.name in ('s_str',)
        for k in range(self.nlines):
            if open_str and k > 1:
                break
            a, e = self.starts[k], self.starts[k + 1] - 1
            for g in INDENT:
                out.append((a, g))
            if not (open_str and k == 1):
                for g in TRAIL + COMMENTS:
                    out.append((e, g))
            for l in LINES:
                out.append((a, l))
        if not open_str:
            for l in LINES:
                out.append((len(s), l))
            out.append((len(s), '// last'))
            out.append((len(s), '   '))
            out.append((len(s), '\t'))
        return out


_cache = {}


def base(ctx, name):
    if name not in _cache:
        p = Prog(name)
        x, r = ctx.diff(p.src, stdin=STDIN, files=FILES, lines=True)
        _cache[name] = (p, r, client.parse_diags(r.err))
    return _cache[name]


def apply(src, edits):
    for pos, text in sorted(edits, key=lambda e: -e[0]):
        src = src[:pos] + text + src[pos:]
    return src


def linemap(p, edits):
    """Line numbers of the original lines in the edited program."""
    ins = [(e[0], e[1].count('\n')) for e in edits if '\n' in e[1]]

    def f(l):
        if l is None or l == 0:
            return l
        start = p.starts[l - 1] if l - 1 < len(p.starts) else len(p.src) + 1
        return l + sum(n for pos, n in ins if pos <= start)
    return f


def check(ctx, name, edits, transform=None):
    p, r0, d0 = base(ctx, name)
    src = apply(p.src, edits)
    if transform:
        src = transform(src)
    r = ctx.run(src, stdin=STDIN, files=FILES, listing=True)
    ds = ctx.orderly(r)
    f = linemap(p, edits)
    if r.code != r0.code:
        raise Mismatch('exit status %d, without the edit %d' % (r.code, r0.code))
    if strip_warnings(r.out) != strip_warnings(r0.out):
        raise Mismatch('stdout %r, without the edit %r' % (r.out, r0.out))
    if r.files != r0.files:
        raise Mismatch('files %r, without the edit %r' % (r.files, r0.files))
    for a, b in zip(d0, ds):
        if a.kind != b.kind:
            raise Mismatch('%s error, without the edit a %s error' % (b.kind, a.kind))
        if a.frames is not None:
            if [f(l) for _, l in a.frames] != [l for _, l in b.frames]:
                raise Mismatch('traceback lines %r, without the edit %r' % (b.frames, a.frames))
        elif f(a.line) != b.line:
            # an error at the end of the source may follow lines added there
            last = len(p.starts)
            if not (a.line >= last - 1 and b.line >= a.line and b.line <= src.count('\n') + 2):
                raise Mismatch('error on line %d, expected line %d (line %d without the edit)' % (b.line, f(a.line), a.line))
    ctx.validated += 1
    ctx.observe((name, r.out, r.err))
    ctx.steps += len(edits) + (transform is not None)


def whole(tier):
    """Edits of the whole text."""
    return [lambda s: s.replace('\n', '\r\n'), lambda s: s[:-1] if s.endswith('\n') else s, lambda s: s.replace('\n', '\r\n')[:-2] if s.endswith('\n') else s, lambda s: s + '\n\n\n', lambda s: s + '\r\n\r\n',
            lambda s: ''.join(l + ('\r\n' if i % 2 else '\n') for i, l in enumerate(s.split('\n')[:-1])), lambda s: ''.join(l + ('\n' if i % 2 else '\r\n') for i, l in enumerate(s.split('\n')[:-1])),
            lambda s: ''.join('    ' + l + '\n' for l in s.split('\n')[:-1]), lambda s: ''.join('\t' * (i % 4) + l + '\n' for i, l in enumerate(s.split('\n')[:-1])),
            lambda s: ''.join(l + ' // note %d\n' % i for i, l in enumerate(s.split('\n')[:-1])), lambda s: ''.join(l + '\t//"\r\n' for l in s.split('\n')[:-1])]


def whole_case(ctx, name, k):
    if name in ('s_str',) and k >= 9:
        return
    check(ctx, name, [], whole(None)[k])


def compact_case(ctx, name, style):
    """All optional blanks removed, or every gap widened."""
    p, r0, d0 = base(ctx, name)
    try:
        toks = psref.lex(p.src)
    except psref.SyntaxErr:
        return
    out = ''
    line = 1
    for i, t in enumerate(toks):
        if t.t == 'EOF':
            break
        a = p.starts[t.line - 1] + t.col - 1
        b = p.starts[toks[i + 1].line - 1] + toks[i + 1].col - 1
        text = p.src[a:b].strip(' \t\n') if t.t != 'NL' else '\n'
        if '//' in text and t.t != 'STRING':
            text = text[:text.index('//')].strip()
        if style == 'wide':
            out += text + ('' if t.t == 'NL' else '  \t')
        else:
            if out and out[-1] not in '\n' and text != '\n':
                q = out[-1]
                word = lambda c: c.isalnum() or c == '_' or c == '.'
                if (word(q) and word(text[0])) or q in '<>=-/' and text[0] in '<>=-/' or toks[i - 1].t in psref.IO_NOPAREN and t.t == '(' or \
                        (toks[i - 1].t in ('INT', 'REAL', 'DATE') and text[0] in '/.') or (q == '/' and text[0].isdigit() and len(out) > 1 and out[-2].isdigit()):
                    out += ' '
            out += text
    check_text(ctx, name, out)


def check_text(ctx, name, src):
    p, r0, d0 = base(ctx, name)
    check(ctx, name, [], lambda s: src)


def repl_case(ctx, entries, edited):
    """The same session with edited layout: everything but the echoed input must agree."""
    from gen import session
    a = ctx.run('', (), session(entries))
    b = ctx.run('', (), session(edited))
    ctx.orderly(a, True)
    ctx.orderly(b, True)

    def strip(o, es):
        for e in es:
            for l in e.split('\n'):
                for pr in ('> ', '. '):
                    o = o.replace(pr + l + '\n', pr + '\n', 1) if False else o
        return [x for x in o.split('\n') if not x.startswith(('> ', '. '))]
    if strip(a.out, entries) != strip(b.out, edited):
        raise Mismatch('REPL output %r, without the edit %r' % (b.out, a.out))
    ka = [d.kind for d in client.parse_diags(a.err)]
    kb = [d.kind for d in client.parse_diags(b.err)]
    if ka != kb:
        raise Mismatch('REPL errors %r, without the edit %r' % (kb, ka))
    ctx.validated += 1
    ctx.observe((a.out,))


REPL = [['x <- 5', 'x', 'OUTPUT x + 1'], ['IF TRUE THEN\nOUTPUT 1\nELSE\nOUTPUT 2\nENDIF', 'OUTPUT "z"'], ['FOR i <- 1 TO 2\nOUTPUT i\nNEXT i', 'i'],
        ['WHILE x9 < 2 DO\nENDWHILE', 'x9 <- 1', 'WHILE x9 < 3 DO\nx9 <- x9 + 1\nENDWHILE', 'x9'], ['REPEAT\nOUTPUT 1\nUNTIL TRUE'], ['TYPE R\nDECLARE n : INTEGER\nENDTYPE', 'DECLARE r : R', 'r.n'],
        ['TYPE E = (ea, eb)', 'eb'], ['PROCEDURE p(x : INTEGER)\nOUTPUT x\nENDPROCEDURE', 'CALL p(4)'], ['FUNCTION f(x : INTEGER) RETURNS INTEGER\nRETURN x + 1\nENDFUNCTION', 'f(4)', 'f("x")'], ['x <- 2', 'CASE OF x\n1: OUTPUT 1\n2: OUTPUT 2\nENDCASE'],
        ['1 / 0', 'nosuch', '5 +', '"a" & "b"', "'c'", '1/2/2000', 'TRUE'], ['TYPE P = ^INTEGER', 'DECLARE p : P', 'p^'], ['INPUT q', 'q'], ['CONSTANT c = 5', 'c', 'c <- 6', 'c']]


def repl_edits(tier):
    for es in REPL:
        for k in range(len(es)):
            if es[k - 1].startswith('INPUT') and k:
                continue
            ls = es[k].split('\n')
            for j in range(len(ls)):
                for pre in ('  ', '    ', ' '):
                    yield es, es[:k] + ['\n'.join(ls[:j] + [pre + ls[j]] + ls[j + 1:])] + es[k + 1:]
                for post in (' ', '   ', ' // c', '// c', ' //', ' // "', " // '", ' // IF', ' // = x'):
                    yield es, es[:k] + ['\n'.join(ls[:j] + [ls[j] + post] + ls[j + 1:])] + es[k + 1:]


# ---- string and character literals on a line decide where a comment starts
PIECES = ['"a"', '""', '"//"', '"x // y"', '"\\""', '"a\\"//b"', '"\\\\"', '"\\\\//"', "'\\''", "'\"'", "'/'", "'\\\\'", '"it\'s"', '"\'//"', 'x / 2', '"\\n//"']
PCOMM = ['', ' // c', '// "', " // '", ' // "q" // \'', ' // \\" "', '//"', "//'\"", ' // \\']


def literals(ctx, pieces, sep):
    src = 'x <- 8\n'
    for ps in pieces:
        for c in PCOMM:
            src += 'OUTPUT ' + sep.join(ps) + c + '\nOUTPUT "next"\n'
    ctx.diff(src, model_kw=dict(steps=60000))
    ctx.diff(src.replace('\n', '\r\n'), model_kw=dict(steps=60000))


ALPH = ['a', '/', '//', '\\"', '\\\\', "'", ' ', '\n']


def inside(ctx, texts):
    """Every content of a literal, closed at the end of the line or followed by a comment."""
    src = ''
    for t in texts:
        for c in ('', '//', ' // "'):
            src += 's <- "%s"%s\nOUTPUT LENGTH(s), "<", s, ">"\n' % (t, c)
    ctx.diff(src, model_kw=dict(steps=60000))


def quoted(tier):
    for k in (1, 2, 3):
        for c in itertools.islice(iter(lambda it=itertools.product(PIECES, repeat=k): list(itertools.islice(it, 20)), []), None):
            yield (literals, c, ', ')
            if k == 2:
                yield (literals, c, ',')
                yield (literals, [p for p in c if not any('x /' in q for q in p)], ' & ')
    for k in range(5 if tier == 'quick' else 6):
        it = itertools.product(ALPH, repeat=k)
        while True:
            c = [''.join(t) for t in itertools.islice(it, 60)]
            if not c:
                break
            yield (inside, c)


def cases(tier):
    yield from quoted(tier)
    yield from scale.cases(tier, 'C10')
    for n in PROGRAMS:
        yield (base, n)
        for e in Prog(n).edits():
            yield (check, n, [e])
        for k in range(len(whole(None))):
            yield (whole_case, n, k)
        yield (compact_case, n, 'wide')
        yield (compact_case, n, 'tight')
    for a, b in repl_edits(tier):
        yield (repl_case, a, b)
    # pairs of edits
    lim = 60 if tier == 'quick' else 400
    for n in PROGRAMS:
        p = Prog(n)
        if len(p.src) > lim:
            continue
        es = p.edits()
        red = [e for i, e in enumerate(es) if tier == 'thorough' and len(p.src) < 90 or e[1] in (' ', '\t', '// c', ' // c', '\n', '// "open\n', '// c\n')]
        for a, b in itertools.combinations(red, 2):
            if a[0] == b[0] and (a[1].count('\n') == 0 or b[1].count('\n') == 0):
                continue
            if '//' in a[1] and not a[1].endswith('\n') and b[0] >= a[0] and '\n' not in p.src[a[0]:b[0]] and '\n' not in b[1]:
                continue
            if '//' in b[1] and not b[1].endswith('\n') and a[0] >= b[0] and '\n' not in p.src[b[0]:a[0]]:
                continue
            yield (check, n, [a, b])
