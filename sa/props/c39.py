"""Streams: sequences of stdio operations on streams of every kind of buffering are interpreted abstractly against a model
of a file of unknown bytes behind the system interface (with short reads, short writes and errors); after every operation
the result, and at every point where C requires it the bytes of the file, must be those of the model."""
from lib import *
from lib import _id
from c35 import X
import itertools
LEVEL = 'other'
W = 'lib/src/stdio.c'
S = 'stdio:'
EOF = -1
FD = 5


class File:
    """the file behind a descriptor, as the system sees it"""

    def __init__(self, x, data, chunks=(), caps=(), errs=()):
        self.x = x; self.data = list(data); self.pos = 0; self.chunks = list(chunks); self.caps = list(caps); self.closed = 0; self.fail = set(errs); self.writes = 0; self.reads = 0; self.lost = False
        h = x.r.hooks; P = '$wasi_snapshot_preview1:'
        h[P + 'fd_write'] = self.write; h[P + 'fd_read'] = self.read; h[P + 'fd_seek'] = self.seek; h[P + 'fd_close'] = self.close
        h[P + 'fd_fdstat_get'] = self.stat; h[P + 'fd_tell'] = lambda r, fd, p: (r.addr(p, 8, True), r.mem.write(p, 8, self.pos), 0)[2]

    def iov(self, r, v, n):
        if n != 1: raise Stuck('several buffers')
        return r.mem.read(r.addr(v, 4, False), 4), r.c.conc(r.mem.read(r.addr(v + 4, 4, False), 4))

    def write(self, r, fd, v, n, pn):
        if fd != FD: raise Bad('write to descriptor %d' % fd)
        p, k = self.iov(r, v, n); self.writes += 1
        if ('w', self.writes) in self.fail: self.lost = True; return 29
        if self.caps:
            c = self.caps.pop(0)
            if c < k: k = c; self.lost = True
        for i in range(k): r.addr(p + i, 1, False)
        b = [r.mem.read(p + i, 1) for i in range(k)]
        if self.pos > len(self.data): self.data += [0] * (self.pos - len(self.data))
        self.data[self.pos:self.pos + k] = b; self.pos += k
        r.addr(pn, 4, True); r.mem.write(pn, 4, k); return 0

    def read(self, r, fd, v, n, pn):
        if fd != FD: raise Bad('read from descriptor %d' % fd)
        p, k = self.iov(r, v, n); self.reads += 1
        if ('r', self.reads) in self.fail: return 29
        k = min(k, max(0, len(self.data) - self.pos))
        if self.chunks and k: k = min(k, self.chunks[(self.reads - 1) % len(self.chunks)])
        for i in range(k): r.addr(p + i, 1, True); r.mem.write(p + i, 1, self.data[self.pos + i])
        self.pos += k; r.addr(pn, 4, True); r.mem.write(pn, 4, k); return 0

    def seek(self, r, fd, off, wh, pn):
        off = sx(r.c.conc(off), 64); n = off + {0: 0, 1: self.pos, 2: len(self.data)}[r.c.conc(wh)]
        if n < 0: return 28
        self.pos = n; r.addr(pn, 8, True); r.mem.write(pn, 8, n); return 0

    def close(self, r, fd):
        if fd != FD: raise Bad('close of descriptor %d' % fd)
        self.closed += 1; return 0

    def stat(self, r, fd, p):
        r.addr(p, 24, True)
        for i in range(24): r.mem.write(p + i, 1, 0)
        r.mem.write(p, 1, 4); return 0


class Model:
    """what C says about the stream"""

    def __init__(self, data, buf): self.data = list(data); self.pos = 0; self.eof = False; self.push = []; self.buf = buf; self.last = None; self.must = 0

    def put(self, t):
        if self.pos > len(self.data): self.data += [0] * (self.pos - len(self.data))
        self.data[self.pos:self.pos + len(t)] = t; self.pos += len(t); self.last = 'w'

    def get(self):
        self.last = 'r'
        if self.push: return self.push.pop()
        if self.pos >= len(self.data): self.eof = True; return None
        self.pos += 1; return self.data[self.pos - 1]


def sequence(x, mode, buf, ops, data=(), chunks=(), bufsize=16, fill=None):
    n = [0]

    def new(k, values=None): n[0] += 1; return [x.sym('%s%d' % ('abcdefghijkl'[n[0] % 12], i), 8, values) for i in range(k)]
    data = [x.sym('f%d' % i, 8, fill) for i in range(data)] if isinstance(data, int) else list(data)
    f = File(x, data, chunks); m = Model(data, buf)
    fp = x.conc(x.call(S + 'fdopen', FD, x.cstr(mode)))
    if not fp: raise Bad('fdopen("%s") fails' % mode)
    if buf == 'none': x.expect('setvbuf', x.call(S + 'setvbuf', fp, 0, 4, 0), 0)
    elif buf in ('full', 'line'): x.expect('setvbuf', x.call(S + 'setvbuf', fp, x.obj([0] * bufsize), 0 if buf == 'full' else 0o100, bufsize), 0)
    hist = []

    def same(what, got, exp, w=8): x.expect('%s: %s' % (' '.join(hist), what), got, exp, w)

    def flushed(k):
        if len(f.data) < k: raise Bad('%s: only %d of %d bytes are in the file%s' % (' '.join(hist), len(f.data), k, x.given(x.c.some() or {})))
        for i in range(k): same('byte %d of the file' % i, f.data[i], m.data[i])
    for op in ops:
        o = op[0]; hist.append(o + ('(%s)' % ','.join(map(str, op[1:])) if op[1:] else ''))
        if o in ('putc', 'write', 'puts') and m.last == 'r' and not m.eof or o in ('getc', 'read', 'gets', 'ungetc') and m.last == 'w' : return      # C forbids it without a flush or seek
        if o == 'putc':
            t = new(1); r = x.call(S + 'fputc', zext(t[0], 8, 32), fp); same('result', r, zext(t[0], 8, 32), 32); m.put(t)
        elif o == 'puts':
            t = new(op[1], range(1, 256)); r = x.call(S + 'fputs', x.obj(t + [0]), fp)
            if sx(x.conc(r), 32) < 0: raise Bad('%s fails' % ' '.join(hist))
            m.put(t)
        elif o == 'write':
            t = new(op[1] * op[2]); r = x.call(S + 'fwrite', x.obj(t), op[1], op[2], fp); same('result', r, op[2] if op[1] else 0, 32); m.put(t)
        elif o == 'flush':
            if m.last == 'r': return           # undefined
            same('result', x.call(S + 'fflush', fp), 0, 32); flushed(len(m.data)); m.last = None
        elif o == 'getc':
            g = m.get(); r = x.call(S + 'fgetc', fp); same('result', r, M(32) if g is None else zext(g, 8, 32) if not isinstance(g, int) else g, 32)
        elif o == 'ungetc':
            if m.push: return               # only one character is guaranteed
            t = new(1); r = x.call(S + 'ungetc', zext(t[0], 8, 32), fp); same('result', r, zext(t[0], 8, 32), 32); m.push.append(t[0]); m.eof = False; m.last = 'r'
        elif o == 'read':
            p = x.obj([0xAA] * (op[1] * op[2] + 1)); r = x.call(S + 'fread', p, op[1], op[2], fp); t = []
            while len(t) < op[1] * op[2]:
                g = m.get()
                if g is None: break
                t.append(g)
            same('result', r, len(t) // op[1] if op[1] else 0, 32)
            for i in range(len(t) if op[1] and len(t) == op[1] * op[2] else len(t) // op[1] * op[1] if op[1] else 0): same('byte %d read' % i, x.read(p + i, 1), t[i])
            same('byte past the end of the array', x.read(p + op[1] * op[2], 1), 0xAA)
        elif o == 'gets':
            p = x.obj([0xAA] * (op[1] + 1)); r = x.call(S + 'fgets', p, op[1], fp); t = []
            while len(t) < op[1] - 1:
                g = m.get()
                if g is None: break
                t.append(g)
                if x.case(lambda c: c == 10, g) if not isinstance(g, int) else g == 10: break
            if not t and op[1] > 1: same('result', r, 0, 32)
            else:
                same('result', r, p, 32)
                for i, g in enumerate(t + [0]): same('character %d' % i, x.read(p + i, 1), g)
            same('byte past the end of the array', x.read(p + op[1], 1), 0xAA)
        elif o in ('seek', 'setpos'):
            off, wh = op[1:] if o == 'seek' else (op[1], 0)
            if wh == 1 and m.push: return
            n_ = off + {0: 0, 1: m.pos, 2: len(m.data)}[wh]
            if n_ < 0: return
            if o == 'seek': same('result', x.call(S + 'fseek', fp, off & M(32), wh), 0, 32)
            else: q = x.obj([0] * 8); x.r.mem.write(q, 8, off); same('result', x.call(S + 'fsetpos', fp, q), 0, 32)
            m.pos = n_; m.push = []; m.eof = False; m.last = None
        elif o == 'rewind': x.call(S + 'rewind', fp); m.pos = 0; m.push = []; m.eof = False; m.last = None
        elif o == 'tell': same('result', x.call(S + 'ftell', fp), m.pos - len(m.push), 32) if not (m.push and m.pos == 0) else None
        elif o == 'getpos':
            if m.push and m.pos == 0: continue
            q = x.obj([0] * 8); same('result', x.call(S + 'fgetpos', fp, q), 0, 32); same('position', x.read(q, 8), m.pos - len(m.push), 64)
        fl = x.read(fp + 16, 4)
        if isinstance(fl, int):
            if bool(fl & 0o20) != m.eof and o in ('getc', 'read', 'gets', 'ungetc', 'seek', 'rewind', 'setpos'): raise Bad('%s: end-of-file indicator%s' % (' '.join(hist), x.given(x.c.some() or {})), m.eof, bool(fl & 0o20))
            if fl & 0o40: raise Bad('%s: error indicator' % ' '.join(hist))
        # what must have reached the file by now
        if m.last == 'w' and o in ('putc', 'puts', 'write'):
            if buf == 'none': flushed(len(m.data))
            elif buf == 'line':
                k = 0
                for i in range(m.pos):
                    if x.case(lambda c: c == 10, m.data[i]) if not isinstance(m.data[i], int) else m.data[i] == 10: k = i + 1
                if k and not fixed(ops): flushed(k)
    hist.append('close')
    same('result', x.call(S + 'fclose', fp), 0, 32)
    if len(f.data) != len(m.data): raise Bad('%s: length of the file%s' % (' '.join(hist), x.given(x.c.some() or {})), len(m.data), len(f.data))
    flushed(len(m.data))
    if f.closed != 1: raise Bad('fclose closes the descriptor %d times' % f.closed)


def fixed(ops): return any(o[0] in ('seek', 'rewind', 'setpos') for o in ops)


def broken(x, buf, ops, caps, errs):
    """a write that the system refuses or cuts short is reported by the operation, a later one or fclose"""
    f = File(x, [], (), caps, errs); bad = False
    fp = x.conc(x.call(S + 'fdopen', FD, x.cstr('w')))
    if buf == 'none': x.call(S + 'setvbuf', fp, 0, 4, 0)
    else: x.call(S + 'setvbuf', fp, x.obj([0] * 16), 0 if buf == 'full' else 0o100, 16)
    hist = []
    for op in ops:
        o = op[0]; hist.append(o)
        if o == 'putc': r = x.conc(x.call(S + 'fputc', 65, fp)); bad |= r == M(32)
        elif o == 'puts': r = x.conc(x.call(S + 'fputs', x.obj([66] * op[1] + [0]), fp)); bad |= r == M(32)
        elif o == 'write': r = x.conc(x.call(S + 'fwrite', x.obj([10] * op[1]), 1, op[1], fp)); bad |= r != op[1]
        elif o == 'flush': r = x.conc(x.call(S + 'fflush', fp)); bad |= r == M(32)
    bad |= bool(x.read(fp + 16, 4) & 0o40)
    bad |= x.conc(x.call(S + 'fclose', fp)) == M(32)
    if f.lost and not bad: raise Bad('%s close: bytes are lost and nothing is reported' % ' '.join(hist))


def unread(x, ops, k):
    f = File(x, [65, 10, 66, 67], (), (), {('r', k)})
    fp = x.conc(x.call(S + 'fdopen', FD, x.cstr('r'))); x.call(S + 'setvbuf', fp, 0, 4, 0)
    got = []
    for i in range(k):
        o = ops[i % len(ops)]
        if o == 'getc': r = x.call(S + 'fgetc', fp); g = r == M(32)
        elif o == 'read': r = x.call(S + 'fread', x.obj([0] * 4), 1, 1, fp); g = r == 0
        else: r = x.call(S + 'fgets', x.obj([0] * 4), 2, fp); g = r == 0
        if f.reads < k:
            if g: raise Bad('%s fails before the error' % o)
            continue
        if not g: raise Bad('%s does not report a read error' % o)
        fl = x.read(fp + 16, 4)
        if not fl & 0o40: raise Bad('no error indicator after a read error in %s' % o)
        if fl & 0o20: raise Bad('end-of-file indicator after a read error in %s' % o)
        return
    raise Bad('the read error is not reached')


WOPS = [('putc',), ('puts', 0), ('puts', 3), ('puts', 9), ('write', 1, 2), ('write', 3, 2), ('write', 1, 8), ('flush',), ('tell',)]
ROPS = [('getc',), ('read', 1, 1), ('read', 2, 2), ('read', 1, 9), ('gets', 1), ('gets', 3), ('gets', 12), ('ungetc',), ('tell',), ('seek', 0, 0), ('seek', 1, 1), ('seek', -1, 1), ('seek', -2, 2), ('seek', 9, 0), ('rewind',), ('getpos',), ('setpos', 3)]
UOPS = [('getc',), ('read', 1, 3), ('putc',), ('write', 1, 3), ('flush',), ('seek', 1, 0), ('seek', 0, 1), ('seek', 0, 2), ('rewind',), ('ungetc',)]


def scenarios(th):
    out = []

    def add(rule, key, body): out.append((rule, key, body))
    name = lambda ops: ' '.join(o[0] + ''.join('_%d' % k for k in o[1:]) for o in ops)
    for buf in ('full', 'none', 'default'):
        for n in (1, 2, 3):
            for ops in itertools.product(WOPS, repeat=n):
                if n == 3 and (buf == 'default' or buf == 'none' and not th): continue
                add('writing', '%s %s' % (buf, name(ops)), lambda x, buf=buf, ops=ops: sequence(x, 'w', buf, ops))
    for n in (1, 2) + ((3,) if th else ()):
        for ops in itertools.product([('putc',), ('puts', 2), ('puts', 3), ('write', 1, 1), ('write', 1, 3), ('write', 2, 2), ('flush',)], repeat=n):
            add('line buffering', name(ops), lambda x, ops=ops: sequence(x, 'w', 'line', ops))
    for ops in ((('puts', 3), ('write', 1, 5)), (('write', 1, 5), ('puts', 4)), (('write', 1, 8),)):
        add('line buffering', name(ops), lambda x, ops=ops: sequence(x, 'w', 'line', ops))
    for chunks in ((), (1,), (3,)):
        for n in (1, 2, 3):
            for ops in itertools.product(ROPS, repeat=n):
                if n == 3 and (chunks != () and not th or sum(o[0] == 'gets' for o in ops) > 1): continue
                for buf in ('full', 'none') if n < 3 else ('full',):
                    for size in (0, 10) if n < 3 else (10,):
                        if chunks and not size: continue
                        add('reading', '%s%s %d %s' % (buf, chunks, size, name(ops)), lambda x, buf=buf, ops=ops, size=size, chunks=chunks: sequence(x, 'r', buf, ops, size, chunks, fill=(10, 65, 66)))
    for n in (2, 3, 4) if th else (2, 3):
        for ops in itertools.product(UOPS, repeat=n):
            if ops[-1][0] in ('seek', 'rewind', 'flush') and n > 2: continue
            for mode in ('r+', 'w+') if n < 3 else ('r+',):
                add('update', '%s %s' % (mode, name(ops)), lambda x, ops=ops, mode=mode: sequence(x, mode, 'full', ops, 5))
    for buf in ('full', 'line', 'none'):
        for n in (1, 2):
            for ops in itertools.product([('putc',), ('puts', 3), ('puts', 12), ('write', 5), ('write', 20), ('flush',)], repeat=n):
                for i, (caps, errs) in enumerate((((), {('w', 1)}), ((), {('w', 2)}), ((0,), ()), ((1,), ()), ((99, 1), ()))):
                    add('errors', '%s %s %d' % (buf, name(ops), i), lambda x, buf=buf, ops=ops, caps=caps, errs=errs: broken(x, buf, ops, caps, errs))
    for ops in (('getc',), ('read',), ('gets',), ('getc', 'read')):
        for k in (1, 2, 3): add('errors', 'read %s %d' % (' '.join(ops), k), lambda x, ops=ops, k=k: unread(x, ops, k))
    return out


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, W, maxclasses=4000)
    c.seen('sequences', key)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
