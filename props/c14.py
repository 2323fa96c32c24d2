"""C14: a random file is a stable, 1-based sequence of independent records."""
import itertools
from collections import deque

from engine import Mismatch
from gen import chain, lit, session
import rerun
import scale

INFO = dict(
    rule='an explicit machine (list of payloads, cursor, open/closed) generates every history of OPEN, CLOSE, SEEK k, PUT v, GET and process restart up to the depth, and the shortest '
         'history to every reachable state (with and without the contents last saved as part of the state) followed by every operation; at every point of a REPL history all operations that are illegal there (SEEK 0, -1, n+2, 2^63-1, GET at n+1, GET of another type, '
         'reopening, text statements, everything on a closed file) are tried as well; every run is compared step by step with the reference model, and a '
         'fresh process reads back all records, the address after the last one and the file with one more record appended',
    assumptions=['the bytes of the data file themselves are not asserted, only what a later read returns'])

PAY = ['"a"', '"\\n#b\\n"', '7', '"#"', 'r', '"b"', '8', '"aa"']
PRE = ['TYPE R\nDECLARE n : INTEGER\nDECLARE s : STRING\nENDTYPE', 'DECLARE s, t : STRING', 'DECLARE i, j : INTEGER', 'DECLARE r, q : R', 'r.n <- 4', 'r.s <- "p\\nq"']
VAR = ['s', 's', 'i', 's', 'r', 's', 'i', 's']


def n(f):
    return 'f%d' % f


def stmts(op):
    """Statements of an operation."""
    k, f = op[0], op[1]
    fn = '"%s"' % n(f)
    if k == 'O':
        return ['OPENFILE %s FOR RANDOM' % fn]
    if k == 'C':
        return ['CLOSEFILE %s' % fn]
    if k == 'S':
        return ['SEEK %s, %d' % (fn, op[2])]
    if k == 'P':
        v = VAR[op[2]]
        return ([] if v == 'r' else ['%s <- %s' % (v, PAY[op[2]])]) + ['PUTRECORD %s, %s' % (fn, v)]
    if k == 'G':
        v = {'s': 't', 'i': 'j', 'r': 'q'}[VAR[op[2]]]
        return {'t': ['t <- "old"'], 'j': ['j <- -1'], 'q': ['q.n <- 0', 'q.s <- "old"']}[v] + ['GETRECORD %s, %s' % (fn, v), 'OUTPUT ' + {'q': 'q.n, q.s'}.get(v, v)]
    raise AssertionError(op)


def show(f):
    fn = '"%s"' % n(f)
    return ['GETRECORD %s, t' % fn, 'OUTPUT "t", t', 'GETRECORD %s, j' % fn, 'OUTPUT "j", j', 'GETRECORD %s, q' % fn, 'OUTPUT "q", q.n, q.s']


# state: per file (records, cursor or None when closed)
def enabled(st, pays, maxn):
    for f, (recs, cur) in enumerate(st):
        if cur is None:
            yield ('O', f)
            continue
        yield ('C', f)
        for k in range(1, len(recs) + 2):
            if k - 1 != cur:
                yield ('S', f, k)
        for p in pays:
            if cur < len(recs) or len(recs) < maxn:
                yield ('P', f, p)
        if cur < len(recs):
            yield ('G', f, recs[cur])


def apply(st, op):
    if op[0] == 'X':
        return tuple((r, None) for r, c in st)
    f = op[1]
    recs, cur = st[f]
    if op[0] == 'O':
        cur = 0
    elif op[0] == 'C':
        cur = None
    elif op[0] == 'S':
        cur = op[2] - 1
    elif op[0] == 'P':
        recs = recs[:cur] + (op[2],) + recs[cur + 1:]
    return st[:f] + ((recs, cur),) + st[f + 1:]


def illegal(st):
    """Statements that fail in this state."""
    out = []
    for f, (recs, cur) in enumerate(st):
        fn = '"%s"' % n(f)
        if cur is None:
            out += ['SEEK %s, 1' % fn, 'GETRECORD %s, s' % fn, 'PUTRECORD %s, s' % fn, 'CLOSEFILE %s' % fn]
            continue
        out += ['SEEK %s, %d' % (fn, len(recs) + 2), 'SEEK %s, 0' % fn, 'SEEK %s, -1' % fn, 'SEEK %s, 9223372036854775807' % fn, 'SEEK %s, 4294967297' % fn, 'SEEK %s, 1.0' % fn, 'OPENFILE %s FOR RANDOM' % fn,
                'OPENFILE %s FOR WRITE' % fn, 'READFILE %s, s' % fn, 'WRITEFILE %s, "w"' % fn, 'EOF(%s)' % fn, 'PUTRECORD %s, nosuch' % fn, 'GETRECORD %s, nosuch' % fn]
        wrong = {'s': ['j', 'q'], 'i': ['t', 'q'], 'r': ['t', 'j']}[VAR[recs[cur]]] if cur < len(recs) else ['t', 'j', 'q']
        out += ['GETRECORD %s, %s' % (fn, v) for v in wrong]
    return out


def check(st):
    """A program of a fresh process that reads everything (REPL entries)."""
    out = list(PRE)
    for f, (recs, cur) in enumerate(st):
        fn = '"%s"' % n(f)
        out += ['OPENFILE %s FOR RANDOM' % fn]
        for k, p in enumerate(recs):
            out += ['SEEK %s, %d' % (fn, k + 1)] + stmts(('G', f, p))
        out += ['SEEK %s, %d' % (fn, len(recs) + 2), 'SEEK %s, %d' % (fn, len(recs) + 1), 'GETRECORD %s, t' % fn, 't <- "appended\\n"', 'PUTRECORD %s, t' % fn]
        if recs:
            out += ['SEEK %s, 1' % fn] + stmts(('G', f, recs[0]))
    return out


def recheck(st):
    out = list(PRE)
    for f, (recs, cur) in enumerate(st):
        fn = '"%s"' % n(f)
        out += ['OPENFILE %s FOR RANDOM' % fn]
        for k in reversed(range(len(recs))):
            out += ['SEEK %s, %d' % (fn, k + 1)] + stmts(('G', f, recs[k]))
        out += ['SEEK %s, %d' % (fn, len(recs) + 1), 'GETRECORD %s, t' % fn, 'OUTPUT t', 'SEEK %s, %d' % (fn, len(recs) + 3)]
    return out


def history(ctx, ops, st0=None, probe=True, mode='repl', deep=True):
    """Runs a history, split at the restarts; the files start empty."""
    nf = len(st0)
    st = st0
    runs, cur = [], list(PRE)
    for op in ops:
        if op[0] == 'X':
            runs.append(cur)
            cur = list(PRE)
        else:
            if probe and mode == 'repl':
                cur += illegal(st)
            cur += stmts(op)
        st = apply(st, op)
        ctx.observe(st)
        if op[0] in 'PS' and deep and mode == 'repl':
            cur += show(op[1])
    if probe and mode == 'repl':
        cur += illegal(st)
    runs.append(cur)
    used = tuple((r, None) for r, c in st)
    if mode == 'file':
        runs = ['\n'.join(r) + '\n' for r in runs]
    elif mode == 'error':
        runs = ['\n'.join(r) + '\nOUTPUT 1 / 0\n' for r in runs]
    elif mode == 'proc':
        # the statements in a procedure that is called once
        runs = ['\n'.join(r[:len(PRE)]) + '\nPROCEDURE go()\n' + '\n'.join(r[len(PRE):]) + '\nENDPROCEDURE\nCALL go\n' for r in runs]
    runs += [check(used), recheck(used)]
    o = chain(ctx, runs)
    if len(o) < len(runs) or o[-1][0] is None:
        raise AssertionError('the model does not predict %r' % (ops,))


def sequences(st, depth, pays, maxn, restarts, last=None):
    """All maximal histories of legal operations."""
    if depth == 0:
        yield []
        return
    ops = list(enabled(st, pays, maxn))
    if restarts and any(c is not None for r, c in st):
        ops.append(('X',))
    for op in ops:
        if op[0] == 'G' and last == op:
            continue
        for rest in sequences(apply(st, op), depth - 1, pays, maxn, restarts, op):
            yield [op] + rest


def graph(nf, pays, maxn, disk=False):
    """Shortest history to every state of the explicit machine, with every legal operation after it.

    disk: the state includes what the last CLOSEFILE or exit left in each file, and whether a record was put since."""
    start = tuple(((), None) for _ in range(nf))
    if disk:
        seen = {(start, start, (False,) * nf): []}
        q = deque(seen)
        while q:
            key = q.popleft()
            st, ds, put = key
            path = seen[key]
            ops = list(enabled(st, pays, maxn))
            if any(c is not None for r, c in st):
                ops.append(('X',))
            for op in ops:
                nx = apply(st, op)
                yield path + [op]
                k = (nx, tuple(x if x[1] is None else d for x, d in zip(nx, ds)),
                     tuple(x[1] is not None and (p or op[0] == 'P' and op[1] == f) for f, (x, p) in enumerate(zip(nx, put))))
                if k not in seen:
                    seen[k] = path + [op]
                    q.append(k)
        return
    seen = {start: []}
    q = deque([start])
    while q:
        st = q.popleft()
        path = seen[st]
        ops = list(enabled(st, pays, maxn))
        if any(c is not None for r, c in st):
            ops.append(('X',))
        for op in ops:
            nx = apply(st, op)
            yield path + [op]
            if nx not in seen:
                seen[nx] = path + [op]
                q.append(nx)


def long(ctx, count, payload):
    """Many records: every one replaced in turn, every other one unchanged."""
    src = 'DECLARE s, t : STRING\nDECLARE k : INTEGER\nOPENFILE "f0" FOR RANDOM\nFOR i <- 1 TO %d\ns <- NUM_TO_STR(i) & %s\nSEEK "f0", i\nPUTRECORD "f0", s\nNEXT i\n' % (count, payload)
    check = 'FOR i <- 1 TO %d\nSEEK "f0", i\nGETRECORD "f0", t\nOUTPUT t\nNEXT i\n' % count
    src += check + 'FOR i <- %d TO 1 STEP -3\ns <- %s & "n" & NUM_TO_STR(i)\nSEEK "f0", i\nPUTRECORD "f0", s\nNEXT i\n' % (count, payload) + check
    second = 'DECLARE s, t : STRING\nOPENFILE "f0" FOR RANDOM\n' + check + 'SEEK "f0", %d\nSEEK "f0", %d\n' % (count + 1, count + 2)
    chain(ctx, [src, second, second], model_kw=dict(steps=100000))


E1 = (((), None),)
E2 = (((), None), ((), None))


def cases(tier):
    yield from scale.cases(tier, 'C14')
    yield from rerun.cases(tier, 'C14')
    quick = tier == 'quick'
    d1, d2, d3 = (5, 6, 7) if quick else (7, 8, 9)
    for c in ([1, 2, 3, 10, 60] if quick else [1, 2, 3, 10, 60, 300]):
        for p in ('"x"', '"\\n#"', '"#\\n\\n"', '"\\n"', '""', '" "'):
            yield (long, c, p)
    for h in graph(1, (0, 1, 2, 3, 4) if not quick else (0, 1, 2), 3):
        yield (history, h, E1)
        yield (history, h, E1, False, 'file')
    for h in graph(1, (0, 1), 4 if quick else 6):
        yield (history, h, E1, False, 'file')
        yield (history, h, E1, False, 'error')
    for pays, maxn in ([((0, 5), 2)] if quick else [((0, 5, 2), 2), ((0, 7), 3)]):
        for k, h in enumerate(graph(1, pays, maxn, True)):
            yield (history, h, E1, False, ('file', 'error', 'repl')[k % 3] if quick else 'file')
            if not quick:
                yield (history, h, E1, False, 'repl', False)
    for h in graph(2, (0, 1), 1 if quick else 2):
        yield (history, h, E2)
        yield (history, h, E2, False, 'proc')
    for h in sequences(E1, d1, (0, 1, 2), 3, True):
        yield (history, h, E1)
    for h in sequences(E1, d2, (1, 2), 3, True):
        yield (history, h, E1, False, 'file')
        yield (history, h, E1, False, 'error')
    for h in sequences(E1, d3, (1,), 2, True):
        yield (history, h, E1, True, 'repl', False)
    for h in sequences(E2, 5 if quick else 7, (1,), 2, True):
        yield (history, h, E2, False, 'file')
    for h in sequences(E2, 4 if quick else 6, (0, 1), 2, True):
        yield (history, h, E2)
