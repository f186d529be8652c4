"""String and memory functions: each function of string.h is interpreted abstractly on objects of bounded size whose
bytes are all unknown; in every class of contents the result, the bytes of every object afterwards and the extent of
all accesses must be what C (and POSIX for the common extensions) prescribe."""
from lib import *
from lib import _id
LEVEL = 'other'
W = 'lib/src/string.c:'


class X:
    """objects with unknown contents and what they must hold at the end"""

    def __init__(self, x): self.x = x; self.o = []; self.n = 0

    def buf(self, n, name=None, values=None, tail=()):
        name = name or 'abcdef'[self.n]; self.n += 1
        b = [self.x.sym('%s%d' % (name, i), 8, values) for i in range(n)] + list(tail)
        p = self.x.obj(b); self.o.append([p, list(b)])
        return p, b

    def str(self, n, **k): return self.buf(n, tail=(0,), **k)

    def lit(self, b):
        p = self.x.obj(b); self.o.append([p, list(b)])
        return p, list(b)

    def want(self, p, i, v):
        for o in self.o:
            if o[0] == p: o[1][i] = v

    def done(self, what):
        for p, b in self.o:
            for i, e in enumerate(b): self.x.expect('%s: byte %d of an object' % (what, i), self.x.read(p + i, 1), e, 8)

    # decisions of the reference
    def z(self, t): return t == 0 if isinstance(t, int) else self.x.case(lambda q: q == 0, t)

    def same(self, a, b): return self.x.case(lambda p, q: p == q, a, b)

    def len(self, b, n=None):
        for i in range(len(b) if n is None else min(n, len(b))):
            if self.z(b[i]): return i
        return len(b) if n is None else n


def low(c): return c + 32 if 65 <= c <= 90 else c


def compare(s, a, b, n, stop, fold=False):
    for i in range(n):
        p, q = a[i], b[i]
        f = low if fold else _id
        r = s.x.case(lambda p, q: (f(p) > f(q)) - (f(p) < f(q)), p, q)
        if r: return r
        if stop and s.z(p): return 0
    return 0


def sign(x, what, r, e): x.test('sign of ' + what, lambda r: (sx(r, 32) > 0) - (sx(r, 32) < 0) == e, r)


def chars(x):
    """an int whose low byte is unknown: plain, sign-extended, with higher bits"""
    k = x.sym('c', 8)
    return k, {'plain': zext(k, 8, 32), 'negative': sext(k, 8, 32), 'high': binop('add', 32, zext(k, 8, 32), 0x4100)}


KINDS = ('plain', 'negative', 'high')


def scenarios(th):
    N = 4 if th else 3
    S = []

    def add(fn, key, body):
        def sc(x): s = X(x); body(x, s); s.done(key)
        S.append((fn, '%s_%s' % (fn, key), sc))
    C = lambda f: 'string:' + f
    for n in range(0, N + 3):
        def f(x, s, n=n):
            p, b = s.buf(n + 2); x.call(C('bzero'), p, n)
            for i in range(n): s.want(p, i, 0)
        add('bzero', n, f)
        for k in KINDS:
            def f(x, s, n=n, k=k):
                p, b = s.buf(n + 2); c, v = chars(x); r = x.call(C('memset'), p, v[k], n); x.expect('memset', r, p)
                for i in range(n): s.want(p, i, c)
            add('memset', '%d_%s' % (n, k), f)
        for fn in ('memcpy', 'memmove'):
            def f(x, s, n=n, fn=fn):
                p, b = s.buf(n + 2); q, d = s.buf(n); r = x.call(C(fn), p, q, n); x.expect(fn, r, p)
                for i in range(n): s.want(p, i, d[i])
            add(fn, n, f)
        for d in range(-n, n + 1) if n <= N + 1 else ():
            def f(x, s, n=n, d=d):
                p, b = s.buf(2 * n + 2); q = n; r = x.call(C('memmove'), p + q + d, p + q, n) if q + d + n <= len(b) else p + q + d
                x.expect('memmove', r, p + q + d)
                if q + d + n <= len(b):
                    for i in range(n): s.want(p, q + d + i, b[q + i])
            add('memmove', 'overlap_%d_%d' % (n, d), f)

        def f(x, s, n=n):
            p, b = s.buf(n); q, d = s.buf(n); x.call(C('memswap'), p, q, n)
            for i in range(n): s.want(p, i, d[i]); s.want(q, i, b[i])
        add('memswap', n, f)
    for n in range(0, N + 1):
        for k in KINDS:
            def f(x, s, n=n, k=k):
                p, b = s.buf(n); c, v = chars(x); r = x.call(C('memchr'), p, v[k], n)
                e = next((p + i for i in range(n) if s.same(b[i], c)), 0); x.expect('memchr', r, e)
            add('memchr', '%d_%s' % (n, k), f)

            def f(x, s, n=n, k=k):
                p, b = s.buf(n + 1); q, d = s.buf(n); c, v = chars(x); r = x.call(C('memccpy'), p, q, v[k], n); e = 0
                for i in range(n):
                    s.want(p, i, d[i])
                    if s.same(d[i], c): e = p + i + 1; break
                x.expect('memccpy', r, e)
            add('memccpy', '%d_%s' % (n, k), f)

        def f(x, s, n=n):
            p, b = s.buf(n); q, d = s.buf(n); sign(x, 'memcmp', x.call(C('memcmp'), p, q, n), compare(s, b, d, n, False))
        add('memcmp', n, f)

        def f(x, s, n=n):
            p, b = s.str(n); x.expect('strlen', x.call(C('strlen'), p), s.len(b))
        add('strlen', n, f)
        for m in (0, 1, n, n + 1, 0xffffffff):
            def f(x, s, n=n, m=m):
                p, b = s.str(n); x.expect('strnlen', x.call(C('strnlen'), p, m), s.len(b, m) if m <= n else s.len(b))
            add('strnlen', '%d_%x' % (n, m), f)
        if n:
            def f(x, s, n=n):       # not terminated inside the limit
                p, b = s.buf(n); x.expect('strnlen', x.call(C('strnlen'), p, n), s.len(b))
            add('strnlen', '%d_open' % n, f)
        for k in KINDS:
            for fn in ('strchr', 'strrchr'):
                def f(x, s, n=n, k=k, fn=fn):
                    p, b = s.str(n); c, v = chars(x); r = x.call(C(fn), p, v[k]); e = 0
                    for i in range(len(b)):
                        if s.same(b[i], c):
                            e = p + i
                            if fn == 'strchr': break
                        if s.z(b[i]): break
                    x.expect(fn, r, e)
                add(fn, '%d_%s' % (n, k), f)
        for m in range(0, N + 1):
            if n + m > (6 if th else 5): continue
            for fn, fold in (('strcmp', 0), ('strcoll', 0), ('strcasecmp', 1)):
                if fold and n + m > 4: continue
                def f(x, s, n=n, m=m, fn=fn, fold=fold):
                    p, b = s.str(n); q, d = s.str(m); r = x.call(C(fn), p, q)
                    sign(x, fn, r, compare(s, b, d, min(n, m) + 1, True, fold))
                add(fn, '%d_%d' % (n, m), f)
            for l in sorted({0, 1, 2, n, n + 1, 0xffffffff}):
                for fn, fold in (('strncmp', 0), ('strncasecmp', 1)):
                    if fold and n + m > 3: continue
                    def f(x, s, n=n, m=m, l=l, fn=fn, fold=fold):
                        p, b = s.str(n); q, d = s.str(m); r = x.call(C(fn), p, q, l)
                        sign(x, fn, r, compare(s, b, d, min(n + 1, m + 1, l), True, fold))
                    add(fn, '%d_%d_%x' % (n, m, l), f)
            def f(x, s, n=n, m=m):
                p, b = s.buf(n + m + 2, values=None); q, d = s.str(m)
                x.r.mem.write(p + n, 1, 0); s.o[0][1][n] = 0; b = s.o[0][1][:]
                r = x.call(C('strcat'), p, q); k = s.len(b)
                for i in range(s.len(d) + 1): s.want(p, k + i, d[i])
                x.expect('strcat', r, p)
            add('strcat', '%d_%d' % (n, m), f)
            for l in sorted({0, 1, m, m + 1, 0xffffffff}):
                def f(x, s, n=n, m=m, l=l):
                    p, b = s.buf(n + m + 2); q, d = s.str(m)
                    x.r.mem.write(p + n, 1, 0); s.o[0][1][n] = 0; b = s.o[0][1][:]
                    r = x.call(C('strncat'), p, q, l); k = s.len(b); t = min(l, s.len(d))
                    for i in range(t): s.want(p, k + i, d[i])
                    s.want(p, k + t, 0); x.expect('strncat', r, p)
                if n + m <= 4: add('strncat', '%d_%d_%x' % (n, m, l), f)
            for fn in ('strspn', 'strcspn', 'strpbrk'):
                def f(x, s, n=n, m=m, fn=fn):
                    p, b = s.str(n); q, d = s.str(m); r = x.call(C(fn), p, q); i = 0
                    lb = s.len(b); ld = s.len(d)
                    while i < lb and any(s.same(b[i], d[j]) for j in range(ld)) == (fn == 'strspn'): i += 1
                    x.expect(fn, r, i if fn != 'strpbrk' else p + i if i < lb else 0)
                if n + m <= 4: add(fn, '%d_%d' % (n, m), f)
            def f(x, s, n=n, m=m):
                p, b = s.str(n); q, d = s.str(m); r = x.call(C('strstr'), p, q); lb, ld = s.len(b), s.len(d)
                e = next((p + i for i in range(lb - ld + 1) if all(s.same(b[i + j], d[j]) for j in range(ld))), 0)
                x.expect('strstr', r, e)
            if n + m <= 6: add('strstr', '%d_%d' % (n, m), f)
        for m in range(0, n + 2):
            def f(x, s, n=n, m=m):
                p, b = s.buf(n); q, d = s.buf(m); r = x.call(C('memmem'), p, n, q, m)
                e = next((p + i for i in range(n - m + 1) if all(s.same(b[i + j], d[j]) for j in range(m))), 0)
                x.expect('memmem', r, e)
            add('memmem', '%d_%d' % (n, m), f)

        # longer needles over two letters
        if n in (3, 4) if not th else n >= 3:
            for nd in itertools.product(b'ab', repeat=n):
                for fn in ('strstr', 'memmem'):
                    def f(x, s, n=n, nd=nd, fn=fn):
                        p, b = s.buf(2 * n, values=[97, 98], tail=(0,) if fn == 'strstr' else ()); q, d = s.lit(list(nd) + [0])
                        r = x.call(C(fn), p, q) if fn == 'strstr' else x.call(C(fn), p, 2 * n, q, n)
                        e = next((p + i for i in range(n + 1) if all(s.same(b[i + j], d[j]) for j in range(n))), 0)
                        x.expect(fn, r, e)
                    add(fn, 'letters_%s' % bytes(nd).decode(), f)

        def f(x, s, n=n):
            p, b = s.buf(n + 2); q, d = s.str(n); r = x.call(C('strcpy'), p, q)
            for i in range(s.len(d) + 1): s.want(p, i, d[i])
            x.expect('strcpy', r, p)
        add('strcpy', n, f)
        for m in range(0, n + 3):
            for fn in ('strncpy', 'strxfrm'):
                def f(x, s, n=n, m=m, fn=fn):
                    p, b = s.buf(m + 1); q, d = s.str(n); r = x.call(C(fn), p, q, m); k = s.len(d)
                    if fn == 'strxfrm':
                        # contents are determined only if the string fits
                        x.expect('strxfrm', r, k)
                        if k < m:
                            for i in range(k + 1): s.want(p, i, d[i])
                        for i in range(k + 1 if k < m else 0, m): s.want(p, i, x.read(p + i, 1))
                    else:
                        for i in range(m): s.want(p, i, d[i] if i < k else 0)
                        x.expect('strncpy', r, p)
                add(fn, '%d_%d' % (n, m), f)

            def f(x, s, n=n, m=m):
                x.r.hooks['$stdlib:malloc'] = lambda r, k: keep(x, r.c.conc(k))
                p, b = s.str(n); r = x.call(C('strndup'), p, m); k = min(m, s.len(b))
                x.expect('strndup asks for', x.size, k + 1)
                x.expect('strndup', r, x.ptr)
                for i in range(k): x.expect('strndup: byte %d' % i, x.read(r + i, 1), b[i], 8)
                x.expect('strndup: terminator', x.read(r + k, 1), 0, 8)
            add('strndup', '%d_%d' % (n, m), f)

        def f(x, s, n=n):
            x.r.hooks['$stdlib:malloc'] = lambda r, k: keep(x, r.c.conc(k))
            p, b = s.str(n); r = x.call(C('strdup'), p); k = s.len(b)
            x.expect('strdup asks for', x.size, k + 1); x.expect('strdup', r, x.ptr)
            for i in range(k + 1): x.expect('strdup: byte %d' % i, x.read(r + i, 1), b[i] if i < k else 0, 8)
        add('strdup', n, f)
    for fn in ('strdup', 'strndup'):
        def f(x, s, fn=fn):
            x.r.hooks['$stdlib:malloc'] = lambda r, k: 0
            p, b = s.str(2); x.expect('%s without memory' % fn, x.call(C(fn), p, *([2] if fn == 'strndup' else [])), 0)
        add(fn, 'no_memory', f)
    # tokens: three calls over a string and a delimiter set
    for fn in ('strtok', 'strtok_r'):
        for n in range(0, N + 1):
            for m in (0, 1, 2):
                if m == 2 and n > 2: continue
                def f(x, s, n=n, m=m, fn=fn):
                    p, b = s.str(n); q, d = s.str(m); h, _ = s.lit([7, 7, 7, 7])
                    ld = s.len(d); lb = s.len(b); pos = 0
                    for call in range(3):
                        a = [p if call == 0 else 0, q] + ([h] if fn == 'strtok_r' else [])
                        r = x.call(C(fn), *a)
                        isd = lambda i: any(s.same(b[i], d[j]) for j in range(ld))
                        while pos < lb and isd(pos): pos += 1
                        if pos >= lb: x.expect('%s, call %d' % (fn, call + 1), r, 0)
                        else:
                            x.expect('%s, call %d' % (fn, call + 1), r, p + pos)
                            while pos < lb and not isd(pos): pos += 1
                            if pos < lb:
                                x.expect('%s, call %d: end of token' % (fn, call + 1), x.read(p + pos, 1), 0, 8); pos += 1
                    for i in range(len(b)):     # delimiters may have been overwritten
                        v = x.read(p + i, 1)
                        if i < lb and any(s.same(b[i], d[j]) for j in range(ld)): s.want(p, i, v)
                    s.o[-1][1] = [x.read(h + i, 1) for i in range(4)]
                add(fn, '%d_%d' % (n, m), f)
    for lo in (0, 60):
        def f(x, s, lo=lo):
            k = x.sym('e', 8, range(0, 77 - lo if lo else 60)); r = x.call(C('strerror'), binop('add', 32, zext(k, 8, 32), lo))
            ps = {}
            v = x.case(_id, r)
            x.test('strerror', lambda v: v != 0, v)
            t = ''
            while x.read(v, 1): t += chr(x.read(v, 1)); v += 1
            x.expect('strerror gives no text', int(t != '' and not t.startswith('?')), 1)
        add('strerror', 'known_%d' % lo, f)
    def f(x, s):
        k = x.sym('e', 8); r = x.call(C('strerror'), binop('add', 32, zext(k, 8, 32), 77)); x.test('strerror', lambda r: r != 0, r)
        r = x.call(C('strerror'), binop('sub', 32, 0xffffffff, zext(k, 8, 32))); x.test('strerror', lambda r: r != 0, r)
    add('strerror', 'unknown', f)
    return S


def keep(x, n):
    x.size = n; x.ptr = x.obj([sym('m%d' % i, 8) for i in range(n)])
    return x.ptr


def task(c, it):
    fn, key, sc = it
    judge(c, fn, key, sc, W + fn)
    c.seen('functions', fn)


def run(c):
    image()
    S = scenarios(c.tier == 'thorough')
    c.pmap(S, task)
    by = {}
    for fn, k, s in S: by[fn] = by.get(fn, 0) + 1
    for fn, n in by.items(): c.need(fn, n)
