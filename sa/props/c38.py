"""Formatted input: vsscanf of the library is interpreted abstractly on formats of each conversion and on input of unknown
bytes; in every class of inputs the count returned, the objects stored to (and no others), and the number of characters
consumed must be what C prescribes."""
from lib import *
from lib import _id
from c35 import X
from c36 import dv
from c37 import va
LEVEL = 'other'
W = 'lib/src/stdio.c:_vsnscanf'
S = 'stdio:'
WS = frozenset({9, 10, 11, 12, 13, 32})
EOF = -1


class Ref:
    """what C prescribes, on symbolic bytes; None is the end of the input"""

    def __init__(self, x, b, end=None): self.x = x; self.b = b; self.i = 0; self.n = len(b)

    def peek(self): return self.b[self.i] if self.i < self.n else None

    def ask(self, f, t):
        if t is None: return False
        return f(t) if isinstance(t, int) else self.x.case(f, t)

    def space(self):
        while self.ask(lambda c: c in WS, self.peek()): self.i += 1

    def integer(self, base, width):
        """(negative, digits, base) or None for a matching failure"""
        lim = self.n if not width else min(self.n, self.i + width); b = self.b
        at = lambda: b[self.i] if self.i < lim else None
        k = self.ask(lambda c: {43: 1, 45: 2}.get(c, 0), at())
        if k: self.i += 1
        d = []; auto = base
        if base in (0, 16) and self.ask(lambda c: c == 48, at()):
            d.append(at()); self.i += 1
            if self.ask(lambda c: c in (88, 120), at()): d = []; self.i += 1; base = 16
            elif base == 0: base = 8
        elif base == 0: base = 10
        while self.ask(lambda c, base=base: dv(c) < base, at()): d.append(at()); self.i += 1
        if not d: return None
        return k == 2, d, base

    def string(self, ok, width):
        a = self.i; f = lambda c: c in ok
        while self.i < self.n and (not width or self.i - a < width) and self.ask(f, self.peek()): self.i += 1
        return self.b[a:self.i]


ALL = frozenset(range(256))
SETS = {'[a-c]': frozenset(b'abc'), '[^a-c]': ALL - frozenset(b'abc'), '[]x]': frozenset(b']x'), '[^]x]': ALL - frozenset(b']x'), '[-z]': frozenset(b'-z'), '[az-]': frozenset(b'az-'), '[0-9x]': frozenset(b'0123456789x'),
        '[^\n]': ALL - {10}, '[\x80-\xff]': frozenset(range(128, 256))}
SIZES = {'hh': 1, 'h': 2, '': 4, 'l': 4, 'll': 8, 'j': 8, 'z': 4, 't': 4}


def directives(fmt):
    """parsed format: ('ws',), ('lit', c), ('conv', suppress, width, size, conv)"""
    out = []; i = 0
    while i < len(fmt):
        c = fmt[i]
        if ord(c) in WS:
            if not out or out[-1] != ('ws',): out.append(('ws',))
            i += 1; continue
        if c != '%': out.append(('lit', ord(c))); i += 1; continue
        i += 1
        if fmt[i] == '%': out.append(('pct',)); i += 1; continue
        sup = fmt[i] == '*'; i += sup; w = 0; m = ''
        while fmt[i].isdigit(): w = w * 10 + int(fmt[i]); i += 1
        while fmt[i] in 'hljzt': m += fmt[i]; i += 1
        if fmt[i] == '[':
            j = i + 1
            if fmt[j] == '^': j += 1
            if fmt[j] == ']': j += 1
            j = fmt.index(']', j) + 1; out.append(('conv', sup, w, m, fmt[i:j])); i = j
        else: out.append(('conv', sup, w, m, fmt[i])); i += 1
    return out


def check(x, s, fmt, b, fn='vsscanf', count=None):
    """scan the bytes b (terms, then the end) with the format"""
    ds = directives(fmt)
    objs = []; args = []
    for d in ds:
        if d[0] == 'conv' and not d[1]:
            n = SIZES[d[3]] if d[4] in 'diuxopX' or d[4] == 'n' else max(len(b), d[2]) + 1
            p = x.obj([0xA0 + i for i in range(n + 2)]); objs.append([p, n, [0xA0 + i for i in range(n + 2)]]); args.append((p, 4))
    if fn == 'vsscanf': q = x.obj(list(b) + [0]); r = x.call(S + 'vsscanf', q, x.cstr(fmt), va(x, args))
    elif fn == 'vsnscanf': q = x.obj(list(b)); r = x.call(S + 'vsnscanf', q, len(b), x.cstr(fmt), va(x, args))
    else:
        q = x.obj(list(b)); d = x.r.img.data['$stdio:_iob']; fp = d.addr + 5 * (d.size // 20)
        for o, v in ((0, len(b)), (4, q), (8, q), (12, q + len(b)), (16, 1)): x.r.mem.write(fp + o, 4, v)
        fb = []
        def fill(r, p): x.r.mem.write(fp, 4, 0); fb.append(1); return M(32)
        x.r.hooks['$stdio:_fillbuf'] = fill
        r = x.call(S + 'vfscanf', fp, x.cstr(fmt), va(x, args))
    # the end of a string is at the first null
    n = len(b)
    if fn != 'vfscanf':
        for i in range(len(b)):
            if x.case(lambda c: c == 0, b[i]) if not isinstance(b[i], int) else b[i] == 0: n = i; break
    z = Ref(x, b[:n]); count = 0; oi = 0; ret = None; done = 0
    for d in ds:
        if d[0] == 'ws': z.space(); continue
        if d[0] in ('lit', 'pct'):
            if d[0] == 'pct': z.space()
            t = z.peek(); k = d[1] if d[0] == 'lit' else 37
            if t is None: ret = count or EOF; break
            if not z.ask(lambda c, k=k: c == k, t): ret = count; break
            z.i += 1; continue
        _, sup, w, m, cv = d
        o = None
        if not sup: o = objs[oi]; oi += 1
        if cv == 'n':
            if o: o[2][:o[1]] = [z.i >> 8 * i & 255 for i in range(o[1])]
            continue
        if cv[0] not in '[c': z.space()
        if z.peek() is None:
            if done and not count: raise Void()       # after a suppressed conversion either is defensible
            ret = count or EOF; break
        if cv in 'diuxopX':
            v = z.integer({'d': 10, 'u': 10, 'i': 0, 'o': 8}.get(cv, 16), w)
            if v is None: ret = count; break
            if o:
                neg, dg, base = v; k = o[1]

                def g(got, *ds_):
                    v = 0
                    for c in ds_: v = v * base + dv(c)
                    return got == (-v if neg else v) & M(8 * k)
                x.test('sscanf("%s"): the number stored' % fmt, g, x.read(o[0], k), *dg)
                o[2][:k] = [x.read(o[0] + i, 1) for i in range(k)]
        elif cv == 'c':
            w = w or 1
            if z.i + w > z.n: raise Void()            # cut short: either failure is defensible
            t = z.b[z.i:z.i + w]; z.i += w
            if o: o[2][:w] = t
        else:
            t = z.string(ALL - WS if cv == 's' else SETS[cv], w)
            if not t: ret = count; break
            if o: o[2][:len(t) + 1] = t + [0]
        done += 1
        if o: count += 1
    if ret is None: ret = count
    x.expect('sscanf("%s") returns' % fmt, r, ret)
    for j, (p, k, e) in enumerate(objs):
        for i, v in enumerate(e): x.expect('sscanf("%s"): byte %d of object %d' % (fmt, i, j), x.read(p + i, 1), v, 8)
    if fn == 'vfscanf' and not fb:
        x.expect('fscanf("%s"): characters taken from the stream' % fmt, binop('sub', 32, x.read(fp + 8, 4), q), z.i)


NUMS = b' -+0179afFxXg'


def scenarios(th):
    out = []

    def add(rule, key, fmt, mk, fn='vsscanf'):
        def sc(x): s = X(x); check(x, s, fmt, mk(x), fn)
        out.append((rule, key, sc))

    def bytes_(n, alpha=None): return lambda x: [x.sym('b%d' % i, 8, None if alpha is None else list(alpha)) for i in range(n)]

    def mixed(pre, n, post='', alpha=None): return lambda x: list(pre.encode('latin-1')) + bytes_(n, alpha)(x) + list(post.encode('latin-1'))
    for cv in 'diuxXop':
        for n in range(0, 3): add('integers', '%s_any%d' % (cv, n), '%' + cv, bytes_(n))
        for n in (3, 4) if th or cv in 'dix' else (3,):
            for w in ('', 1, 2, 3):
                if n == 4 and not th and w != '': continue
                add('integers', '%s%s_%d' % (w, cv, n), '%%%s%s%%n' % (w, cv), bytes_(n, NUMS if n == 3 or th else b'-0xa9 '))
        for m, k in SIZES.items():
            if cv == 'p': continue
            t = {'d': '12', 'i': '0x7', 'u': '9', 'x': 'aB', 'X': '0X', 'o': '07'}[cv]
            for sg in '', '-':
                add('sizes', '%s%s%s' % (m, cv, sg), '%' + m + cv + '%' + m + 'n', mixed(' ' + sg + t, 1, '1', b'0123a \0'))
        add('sizes', cv + '_suppressed', '%*' + cv + '%c', mixed('1', 2, '', b'01 a'))
    for fmt in ('%s', '%2s', '%*s%c', '%s%s', '%c', '%2c', '%*c%c', '%c%s', '%1s%1s', ' %c', '%s %n', '%*2s%n'):
        for n in range(0, 4):
            if n == 3 and fmt in ('%s%s', '%s %n') and not th: continue
            add('strings', '%s_%d' % (fmt, n), fmt, bytes_(n))
    for st in SETS:
        for fmt in ('%' + st, '%2' + st, '%*' + st + '%n', '%' + st + '%c'):
            for n in range(0, 4): add('sets', '%s_%d' % (fmt.encode('latin-1').hex(), n), fmt, bytes_(n))
    for fmt in ('a%c', ' a %c', '%%%c', 'ab', '%c,%c', '%c %c', '\xe9%c', ' ', '', ' %% ', '%c%%'):
        for n in range(0, 4): add('literals', '%s_%d' % (fmt.encode('latin-1').hex(), n), fmt, bytes_(n))
    for fmt in ('%d,%d', '%2d%2d', '%i %i', '%d%c%n', '%x:%o', '%d/%*d/%d', '%d %s', '%[0-9x]%d'):
        for n in (3, 4): add('sequences', '%s_%d' % (fmt, n), fmt, bytes_(n, b'12 ,-') if fmt != '%i %i' else bytes_(n, b'07x '))
    for fn in ('vsnscanf', 'vfscanf'):
        for fmt in ('%d', '%x', '%2d%c', '%s', '%2s', '%c', '%[a-c]', '%[^a-c]', 'a', ' ', '%d%%', '\xff', '%*d,'):
            for n in range(0, 3): add('entry', '%s_%s_%d' % (fn, fmt.encode('latin-1').hex(), n), fmt, bytes_(n), fn)
    return out


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, W, maxclasses=6000)
    c.seen('formats', key.rsplit('_', 1)[0])


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
