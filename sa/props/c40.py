"""The allocator: sequences of malloc, calloc, realloc and free are interpreted abstractly with sizes that range over windows
of unknown values and blocks filled with unknown bytes; after every operation the live blocks must be aligned, lie inside the
memory, be disjoint from each other and from all other objects, and hold what the program stored in them; when the memory
cannot grow the operation must fail and leave everything as it was; freed memory must become available again."""
from lib import *
from lib import _id
from c35 import X
import itertools, random
LEVEL = 'other'
W = 'lib/src/stdlib.c'
S = 'stdlib:'
ENOMEM = 48


class H:
    """the program's view of the heap"""

    def __init__(self, x):
        self.x = x; self.live = []; self.n = 0; self.hist = []; self.deny = set(); self.asked = 0; self.grown = 0

        def grow(r, n):
            self.asked += 1
            if self.asked in self.deny or n > 4096: return False
            self.grown += n; return True
        x.r.hooks['memory.grow'] = grow
        d = x.r.img.data
        self.static = min(e.addr for e in d.values()), max(e.addr + e.size for e in d.values())

    def bad(self, what, e=None, g=None):
        s = self.x.c.some()
        if s is None: raise Void()
        raise Bad('%s: %s%s' % (' '.join(self.hist), what, self.x.given({i: v for i, v in s.items() if self.x.names.get(i, 'b')[0] == 'n'})), e, g)

    def size(self, lo, win=1):
        if win == 1: return lo
        self.n += 1
        return binop('add', 32, zext(self.x.sym('n%d' % self.n, 8, range(win)), 8, 32), lo)

    def top(self, n): return n if isinstance(n, int) else max(self.x.c.values(n))

    def low(self, n): return n if isinstance(n, int) else min(self.x.c.values(n))

    def place(self, p, n, what):
        """a new block of n bytes at p"""
        x = self.x; p = x.conc(p); n = self.top(n)
        if p == 0: self.bad(what + ' fails although the memory can grow')
        if p % 16: self.bad(what + ' is not aligned', 0, p % 16)
        if p < HEAP: self.bad(what + ' is outside the heap', None, p)
        if p + n > x.r.mem.pages * 65536: self.bad(what + ' reaches past the end of the memory', x.r.mem.pages * 65536, p + n)
        for b in self.live:
            q, m = b[0], max(1, self.top(b[1]))
            if p < q + m and q < p + max(1, n): self.bad('%s of %d bytes overlaps a live block of %d bytes' % (what, n, m), None, p - q)
        return p

    def fill(self, b):
        """unknown bytes wherever the allocator might keep something of its own"""
        x = self.x; p, n = b[0], self.low(b[1]); at = set()
        for s in range(0, 17):
            for i in (range(-20, 20) if s > 4 else range(0, 20)): at.add((1 << s) - 16 + i)
        at |= set(range(n - 4, n)); b[2] = {}
        self.n += 1
        for i in sorted(at):
            if 0 <= i < n:
                b[2][i] = x.sym('b%d_%d' % (self.n, i), 8); x.r.addr(p + i, 1, True); x.r.mem.write(p + i, 1, b[2][i])

    def check(self, b, n=None):
        for i, v in b[2].items():
            if n is not None and i >= n: continue
            g = self.x.read(b[0] + i, 1)
            if g is not v: self.x.expect('%s: byte %d of a live block' % (' '.join(self.hist), i), g, v, 8)

    def all(self):
        for b in self.live: self.check(b)

    def malloc(self, n, ok=True):
        self.hist.append('malloc(%s)' % self.top(n)); r = self.x.call(S + 'malloc', n)
        return self.got(r, n, 'malloc', ok)

    def got(self, r, n, what, ok):
        if not ok:
            if self.x.conc(r): self.bad(what + ' does not fail although the memory cannot grow')
            if self.x.r.glob['$errno:errno'] != ENOMEM and self.asked: self.bad('errno after ' + what, ENOMEM, self.x.r.glob['$errno:errno'])
            return None
        b = [self.place(r, n, what), n, {}]; self.live.append(b); self.fill(b); return b

    def calloc(self, n, k):
        self.hist.append('calloc(%s,%s)' % (self.top(n), k)); r = self.x.call(S + 'calloc', n, k)
        m = binop('mul', 32, n, k) if not isinstance(n, int) else n * k
        b = [self.place(r, m, 'calloc'), m, {}]
        for i in range(self.top(m)):
            g = self.x.r.mem.b.get(b[0] + i, 0)
            if g != 0: g = self.x.read(b[0] + i, 1)
            if g != 0: self.x.expect('%s: byte %d' % (' '.join(self.hist), i), g, 0, 8)
        self.live.append(b); self.fill(b)

    def realloc(self, b, n, ok=True):
        self.hist.append('realloc(%s)' % self.top(n)); old = b[2]
        r = self.x.call(S + 'realloc', b[0], n)
        if not ok: self.got(r, n, 'realloc', False); return
        self.live.remove(b)
        p = self.place(r, n, 'realloc'); nb = [p, n, {i: v for i, v in old.items() if i < self.low(n)}]
        self.live.append(nb); self.check(nb); self.fill(nb)

    def free(self, b):
        self.hist.append('free(%s)' % self.top(b[1])); self.live.remove(b); self.x.call(S + 'free', b[0])


OPS = {'a': ('m', 10, 1), 'b': ('m', 40, 1), 'c': ('m', 90, 1), 'd': ('m', 30000, 1), 'z': ('c', 20, 2), 'F': ('f', 0), 'L': ('f', -1), 'M': ('f', 1), 'r': ('r', 0, 60), 's': ('r', -1, 5), 'R': ('r', -1, 200)}


def word(x, w, deny=()):
    h = H(x); h.deny = set(deny)
    for o in w:
        op = OPS[o]
        if op[0] == 'm': h.malloc(op[1])
        elif op[0] == 'c': h.calloc(op[1], op[2])
        else:
            if len(h.live) <= (op[1] if op[1] >= 0 else 0): return
            b = h.live[op[1]]
            if op[0] == 'f': h.free(b)
            else: h.realloc(b, op[2])
        h.all()


def scenarios(thorough):
    out = []

    def add(rule, key, f): out.append((rule, key, f))
    # sizes around the limits of the block sizes
    for k in range(4, 20):
        for lo in ((1 << k) - 16 - 8, (1 << k) - 16, (1 << k) - 8, 1 << k):
            if lo < 0: continue

            def f(x, lo=lo):
                h = H(x); n = h.size(lo, 8); a = h.malloc(24); b = h.malloc(n); c = h.malloc(24); h.all()
                h.free(b); h.all(); g = h.grown; d = h.malloc(n); h.all()
                if h.grown != g: h.bad('the memory grows although a block of the same size was freed')
                h.free(a); h.free(c); h.all(); h.realloc(h.live[0], binop('add', 32, n, 1) if not isinstance(n, int) else n + 1); h.all()
            add('sizes', 'malloc_%d' % lo, f)

            def f(x, lo=lo):
                h = H(x); n = h.size(lo, 4) if lo < 500 else lo; a = h.malloc(n); b = h.malloc(10); h.realloc(a, 2 * lo + 3); h.all(); h.realloc(h.live[-1], max(1, lo // 2)); h.all(); c = h.malloc(lo); h.all(); h.realloc(b, lo + 30); h.all()
            add('sizes', 'realloc_%d' % lo, f)
            if lo < 300:
                def f(x, lo=lo):
                    h = H(x); a = h.malloc(lo + 4); h.free(a); h.calloc(h.size(lo, 2) if lo < 100 else lo, 1); h.all(); h.calloc(3, lo); h.all()
                add('sizes', 'calloc_%d' % lo, f)
    def f(x):
        h = H(x); ps = [x.conc(x.call(S + 'malloc', 0)) for _ in range(3)]
        for p in ps: 
            if p: h.live.append([h.place(p, 0, 'malloc(0)'), 0, {}])
        a = h.malloc(20); h.all()
        for b in list(h.live): h.free(b)
        x.call(S + 'free', 0); b = h.malloc(20); h.all(); h.realloc(b, 33); x.expect('free and malloc of nothing', 0, 0)
        p = x.call(S + 'realloc', 0, 44); h.got(p, 44, 'realloc(NULL)', True); h.all()
    add('sizes', 'zero', f)
    # all short sequences, and longer ones
    alpha = 'abdFLMrRz'
    for n in range(1, 5 if thorough else 4):
        for w in itertools.product(alpha, repeat=n):
            if w[0] in 'abdz': add('sequences', ''.join(w), lambda x, w=w: word(x, w))
    g = random.Random(5); seen = set()
    while len(seen) < (6000 if thorough else 900):
        n = g.randint(5, 12); w = ''; live = 0
        for i in range(n):
            o = g.choice('abcdz' if live < 2 else 'abcdzFLMrRsFLM')
            live += 1 if o in 'abcdz' else -1 if o in 'FLM' else 0; w += o
        seen.add(w)
    for w in sorted(seen): add('sequences', w, lambda x, w=w: word(x, w))
    # several blocks of one size freed in every order, and the memory used again
    for n in (10, 40, 100, 3000):
        for k in (2, 3, 4):
            for perm in itertools.permutations(range(k)):
                def f(x, n=n, k=k, perm=perm):
                    h = H(x); bs = [h.malloc(n) for _ in range(k)]
                    for i in perm: h.free(bs[i]); h.all()
                    g = h.grown
                    for m in (2 * n + 20, n, n, 4 * n, 10): h.malloc(m); h.all()
                    if n < 3000 and h.grown != g: h.bad('the memory grows although everything was freed')
                add('reuse', '%d_%d_%s' % (n, k, ''.join(map(str, perm))), f)
    # many blocks freed so that those in the middle of the free lists are joined with their neighbours, and used again
    for n in (10, 40, 200):
        for k in (8, 12):
            for t in range(24 if thorough else 8):
                def f(x, n=n, k=k, t=t):
                    h = H(x); bs = [h.malloc(n) for _ in range(k)]; g = random.Random(100 * k + t)
                    one = bs[0::2]; two = bs[1::2]
                    if t & 1: one, two = two, one
                    if t > 1: g.shuffle(one)
                    if t > 3: g.shuffle(two)
                    for b in one: h.free(b)
                    h.all(); grown = h.grown; m = n if t % 3 else 2 * n + 16
                    for b in two[:len(two) // 2] if t & 4 else two: h.free(b); h.all()
                    for i in range(k // 2 + 2): h.malloc(m if i % 4 < 3 else n); h.all()
                    for b in list(h.live)[::2]: h.free(b)
                    h.all()
                    for i in range(4): h.malloc(n); h.all()
                add('reuse', 'middle_%d_%d_%d' % (n, k, t), f)
    # everything is freed: the memory serves again, in large blocks too
    for sizes in ((10,), (10, 40), (10, 40, 3000), (30000, 10), (100, 100, 100), (10, 30000, 10, 9000), (60000, 10), (48, 17, 17, 48)):
        for rev in (0, 1):
            def f(x, sizes=sizes, rev=rev):
                h = H(x); bs = [h.malloc(n) for n in sizes]
                for b in (bs[::-1] if rev else bs): h.free(b); h.all()
                g = h.grown
                for i in range(g): h.malloc(65000); h.all()
                if h.grown != g: h.bad('freed memory is not available for a block of 65000 bytes')
            add('reuse', 'all_%s_%d' % ('.'.join(map(str, sizes)), rev), f)
    # steady use needs no more and more memory
    for w in (('m10', 'm40', 'f0', 'm90', 'f0', 'f0'), ('m40', 'm30000', 'f0', 'f0'), ('m10', 'r200', 'r5000', 'f0'), ('m200', 'm10', 'm200', 'f1', 'f0', 'm500', 'f0', 'f0'), ('m70000', 'm200000', 'f0', 'f0'), ('m50000', 'f0', 'm10', 'f0')):
        def f(x, w=w):
            h = H(x); g = None
            for rnd in range(5):
                for o in w:
                    if o[0] == 'm': h.malloc(int(o[1:]))
                    elif o[0] == 'r': h.realloc(h.live[0], int(o[1:]))
                    else: h.free(h.live[int(o[1:])])
                h.all()
                if rnd == 2: g = h.grown
            if h.grown != g: h.bad('the same operations over and over use more and more memory')
        add('reuse', 'loop_' + '.'.join(w), f)
    # the memory cannot grow
    for w in ('a', 'd', 'z'):
        def f(x, w=w):
            h = H(x); h.deny = {1}; op = OPS[w]
            r = x.call(S + 'malloc', op[1]) if op[0] == 'm' else x.call(S + 'calloc', op[1], op[2]); h.hist.append(w)
            h.got(r, 0, 'malloc', False); h.malloc(10); h.all(); h.malloc(100); h.all()
        add('failure', 'first_' + w, f)
    for n in (30000, 65000, 70000, 130000, 300000):
        for m in (10, 100, 9000):
            def f(x, n=n, m=m):
                h = H(x); a = h.malloc(m); c = h.malloc(m); h.free(a); h.deny = set(range(2, 100))
                if n < 40000: h.malloc(n)
                h.all(); a0 = h.asked; h.malloc(65500, False); h.all(); h.malloc(m); h.all(); h.realloc(c, n * 3, False); h.all()
                if c in h.live: h.realloc(c, m + 1 if m != 9000 else m - 1); h.all(); h.free(h.live[-1]); h.all()
                h.malloc(m); h.all()
            add('failure', 'grow_%d_%d' % (n, m), f)
    for lo in (0x20000000, 0x3fffffe8, 0x3ffffff0, 0x3ffffff8, 0x40000000, 0x7fffff00, 0x7fffffe8, 0x7ffffff0, 0x7ffffff8, 0x80000000, 0xbffffff8, 0xffff0000, 0xffffffe8, 0xfffffff0, 0xfffffff8):
        def f(x, lo=lo):
            h = H(x); a = h.malloc(20); n = h.size(lo, 8); h.hist.append('malloc(%#x..)' % lo)
            if x.conc(x.call(S + 'malloc', n)): h.bad('does not fail although the memory cannot grow')
            h.all(); h.hist.append('realloc(%#x..)' % lo)
            if x.conc(x.call(S + 'realloc', a[0], n)): h.bad('does not fail although the memory cannot grow')
            h.all(); h.hist.append('calloc(1, %#x..)' % lo)
            if x.conc(x.call(S + 'calloc', 1, n)): h.bad('does not fail although the memory cannot grow')
            h.all(); h.malloc(20); h.all()
        add('failure', 'huge_%x' % lo, f)
    for a, b in ((0x10000, 0x10000), (0x10001, 0xffff), (0x80000000, 2), (3, 0x55555556), (0xffffffff, 0xffffffff), (0x40000001, 4), (0x20000001, 8), (2, 0x80000000), (5, 0x33333334)):
        def f(x, a=a, b=b):
            h = H(x); k = h.malloc(20); h.hist.append('calloc(%#x, %#x)' % (a, b)); n = binop('add', 32, zext(x.sym('n', 8, range(2)), 8, 32), a) if a < 0xffffffff else a
            r = x.conc(x.call(S + 'calloc', n, b))
            if r: h.bad('the product overflows but a block is returned')
            h.all()
        add('failure', 'calloc_%x_%x' % (a, b), f)
    return out


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, W, maxclasses=4000)
    c.seen('sequences', key)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
