"""Client of the fork server: runs one execution of the real interpreter."""
import os, re, shutil, struct, subprocess, tempfile

U32 = struct.Struct('<I')


class Result:
    __slots__ = ('kind', 'code', 'out', 'err', 'files')

    def __init__(self, kind, code, out, err, files):
        self.kind, self.code, self.out, self.err, self.files = kind, code, out, err, files

    @property
    def crashed(self):
        return self.kind == 'signal' or (self.kind == 'exit' and self.code not in (0, 1))

    def describe(self):
        return '%s %s' % (self.kind, self.code)


KINDS = {0: 'exit', 1: 'signal', 2: 'timeout'}


def _b(s):
    return s if isinstance(s, bytes) else s.encode('latin-1')


class Server:
    def __init__(self, exe, scratch=None, stack=256 << 20):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        self.scratch = scratch or tempfile.mkdtemp(prefix='psverif-', dir=base)
        os.chmod(self.scratch, 0o755)
        self.exe = exe
        self.stack = stack
        self.p = None
        self.start()

    def start(self):
        def pre():
            import resource
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (self.stack, resource.RLIM_INFINITY))
            except (ValueError, OSError):
                pass
        self.p = subprocess.Popen([self.exe, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  bufsize=0, preexec_fn=pre,
                                  env=dict(os.environ, MALLOC_PERTURB_='165'))   # fresh and freed heap memory holds a pattern

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _read(self, n):
        buf = bytearray()
        f = self.p.stdout
        while len(buf) < n:
            c = f.read(n - len(buf))
            if not c:
                raise RuntimeError('fork server died')
            buf += c
        return bytes(buf)

    def run(self, prog='', args=('../p',), stdin='', files=(), wipe=True, listing=False, timeout_ms=10000,
            steps=0, depth=0, cells=0, max_string=0, fsize=0, out_cap=1 << 20, rands=()):
        """files: iterable of (type, mode, name, data)"""
        o = [U32.pack((1 if wipe else 0) | (2 if listing else 0)), U32.pack(timeout_ms), U32.pack(steps), U32.pack(depth),
             U32.pack(cells), U32.pack(max_string), U32.pack(fsize), U32.pack(out_cap), U32.pack(len(args))]
        for a in args:
            a = _b(a)
            o += [U32.pack(len(a)), a]
        for s in (prog, stdin):
            s = _b(s)
            o += [U32.pack(len(s)), s]
        o.append(U32.pack(len(rands)))
        o += [U32.pack(r) for r in rands]
        o.append(U32.pack(len(files)))
        for t, mode, name, data in files:
            name, data = _b(name), _b(data)
            o += [U32.pack(ord(t)), U32.pack(mode), U32.pack(len(name)), name, U32.pack(len(data)), data]
        body = b''.join(o)
        self.p.stdin.write(U32.pack(len(body)) + body)
        n = U32.unpack(self._read(4))[0]
        r = self._read(n)
        kind, code, no = struct.unpack_from('<III', r)
        pos = 12
        out = r[pos:pos + no]
        pos += no
        ne = U32.unpack_from(r, pos)[0]
        pos += 4
        err = r[pos:pos + ne]
        pos += ne
        nf = U32.unpack_from(r, pos)[0]
        pos += 4
        fl = {}
        for _ in range(nf):
            k = U32.unpack_from(r, pos)[0]
            name = r[pos + 4:pos + 4 + k].decode('latin-1')
            pos += 4 + k
            t, k = struct.unpack_from('<II', r, pos)
            fl[name] = r[pos + 8:pos + 8 + k].decode('latin-1') if t == ord('f') else ('<%s>' % chr(t))
            pos += 8 + k
        return Result(KINDS[kind], code, out.decode('latin-1'), err.decode('latin-1'), fl)


    def batch(self, items, timeout_ms=30000, steps=0, depth=0, cells=0, max_string=0):
        """items: (mode, prog, stdin, files); mode 1: pedantic, 2: REPL; files: None or (name, data) pairs.
        Runs them in one process. Returns ([(exit code, first bytes of stderr)], how the process ended); fewer
        records than items: the process ended during the next one."""
        o = [U32.pack(1 | 8), U32.pack(timeout_ms), U32.pack(steps), U32.pack(depth),
             U32.pack(cells), U32.pack(max_string), U32.pack(0), U32.pack(1 << 26), U32.pack(0), U32.pack(0), U32.pack(0), U32.pack(0), U32.pack(0),
             U32.pack(len(items))]
        for mode, prog, stdin, files in items:
            prog, stdin = _b(prog), _b(stdin)
            o += [U32.pack(mode | (4 if files else 0)), U32.pack(len(prog)), prog, U32.pack(len(stdin)), stdin]
            if files:
                o.append(U32.pack(len(files)))
                for name, data in files:
                    name, data = _b(name), _b(data)
                    o += [U32.pack(len(name)), name, U32.pack(len(data)), data]
        body = b''.join(o)
        self.p.stdin.write(U32.pack(len(body)) + body)
        n = U32.unpack(self._read(4))[0]
        r = self._read(n)
        kind, code, no = struct.unpack_from('<III', r)
        pos, end = 12, 12 + no
        recs = []
        while pos + 8 <= end:
            c, k = struct.unpack_from('<II', r, pos)
            if pos + 8 + k > end:
                break
            recs.append((c, r[pos + 8:pos + 8 + k]))
            pos += 8 + k
        return recs, (KINDS[kind], code)


_HEAD = re.compile(r'^(Syntax Error|Error\(pedantic\)|Error) on line (-?\d+), column (-?\d+) of (.*)$')
_RT = re.compile(r'^Runtime Error in file (.*?)(:?)$')
_FRAME = re.compile(r'^(.+), line (-?\d+), column (-?\d+)$')


class Diag:
    """One printed diagnostic."""
    __slots__ = ('kind', 'line', 'column', 'frames', 'file')

    def __init__(self, kind, line, column, frames, file):
        self.kind, self.line, self.column, self.frames, self.file = kind, line, column, frames, file

    def __repr__(self):
        return '%s line %s %s' % (self.kind, self.line, self.frames)


def parse_diags(err):
    """All diagnostics of a stderr text, in order."""
    out = []
    lines = err.replace('\x07', '').split('\n')     # readline rings the bell there
    i = 0
    while i < len(lines):
        m = _HEAD.match(lines[i])
        if m:
            kind = {'Syntax Error': 'syntax', 'Error(pedantic)': 'pedantic', 'Error': 'error'}[m.group(1)]
            out.append(Diag(kind, int(m.group(2)), int(m.group(3)), None, m.group(4)))
            i += 1
            continue
        m = _RT.match(lines[i])
        if m:
            j = i + 1
            while j < len(lines) and lines[j] != 'Traceback:':
                j += 1
            frames = []
            j += 1
            col = None
            while j < len(lines) and lines[j]:
                f = _FRAME.match(lines[j])
                if f:
                    if not frames:
                        col = int(f.group(3))
                    frames.append((f.group(1), int(f.group(2))))
                else:
                    if _HEAD.match(lines[j]) or _RT.match(lines[j]):
                        break
                    frames.append((lines[j], None))
                j += 1
            out.append(Diag('runtime', frames[0][1] if frames else None, col, frames, m.group(1)))
            i = j
            continue
        i += 1
    return out
