"""General utilities: the number conversions, searching and sorting, arithmetic, random numbers and multibyte functions of
stdlib.h are interpreted abstractly on inputs whose bytes, digits and elements are unknown; in every class of inputs the
result, end pointer, errno and memory must be what C prescribes."""
from lib import *
from lib import _id
from c35 import X
LEVEL = 'other'
W = 'lib/src/stdlib.c:'
S = 'stdlib:'
WS = {9, 10, 11, 12, 13, 32}
DIGS = set(range(48, 58))


def dv(c):
    return c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 122 else c - 55 if 65 <= c <= 90 else 99


def parse(s, b, base, auto):
    """(sign, digit terms, base, end) of the subject sequence in the bytes b, end None if there is none"""
    x = s.x; i = 0; neg = False
    ask = lambda f, t: f(t) if isinstance(t, int) else x.case(f, t)
    while ask(lambda c: c in WS, b[i]): i += 1
    k = ask(lambda c: {43: 1, 45: 2}.get(c, 0), b[i])
    if k: i += 1; neg = k == 2
    isd = lambda t, base: ask(lambda c: dv(c) < base, t)
    if auto and base in (0, 16) and ask(lambda c: c == 48, b[i]) and ask(lambda c: c in (88, 120), b[i + 1]) and isd(b[i + 2], 16): i += 2; base = 16
    elif base == 0: base = 8 if ask(lambda c: c == 48, b[i]) else 10
    d = []
    while isd(b[i], base): d.append(b[i]); i += 1
    return neg, d, base, i if d else None


def value(s, what, r, w, neg, d, base, f=lambda v: v):
    def fn(r, *ds):
        v = 0
        for c in ds: v = v * base + dv(c)
        return r & M(w) == f(-v if neg else v) & M(w)
    s.x.test(what, fn, r, *d)


RANGE = {'strtol': (-1 << 31, (1 << 31) - 1, 32), 'strtoll': (-1 << 63, (1 << 63) - 1, 64), 'strtoimax': (-1 << 63, (1 << 63) - 1, 64),
         'strtoul': (None, M(32), 32), 'strtoull': (None, M(64), 64), 'strtoumax': (None, M(64), 64)}


def clamp(fn):
    lo, hi, w = RANGE[fn]

    def f(v):
        if lo is None:
            return hi if abs(v) > hi else v
        return min(max(v, lo), hi)
    return f


def erange(fn):
    lo, hi, w = RANGE[fn]
    return lambda v: abs(v) > hi if lo is None else v < lo or v > hi


def scenarios(th):
    out = []

    def add(fn, key, body):
        def sc(x): s = X(x); body(x, s); s.done(key)
        out.append((fn, '%s_%s' % (fn, key), sc))
    # ---- atoi
    for fn, w in (('atoi', 32), ('atol', 32), ('atoll', 64)):
        for n in range(0, 5 if th else 4):
            def f(x, s, fn=fn, w=w, n=n):
                p, b = s.str(n); r = x.call(S + fn, p)
                neg, d, base, e = parse(s, b + [0, 0], 10, False)
                value(s, '%s' % fn, r, w, neg, d, 10)
            add(fn, n, f)
        for pre in ('-', '+', '', ' \t'):
            for lit in (str((1 << w - 1) - 1)[:-1], '0000000000000000000000'):
                def f(x, s, fn=fn, w=w, pre=pre, lit=lit):
                    d = x.sym('d', 8, [48 + i for i in range(9 if pre == '-' else 8)]); p, b = s.lit(list((pre + lit).encode()) + [d, 0])
                    r = x.call(S + fn, p); v = int(lit)
                    x.test(fn, lambda r, d: r & M(w) == (-1 if pre == '-' else 1) * (v * 10 + d - 48) & M(w), r, d)
                add(fn, 'limit_%s%s' % (pre.strip() or len(pre), len(lit)), f)
    # ---- strtol
    for fn in RANGE:
        w = RANGE[fn][2]; full = fn in ('strtol', 'strtoull')
        for base in (0, 8, 10, 16, 2, 36):
            for n in range(0, 4 if full and base in (0, 10, 16) else 3):
                if n == 3 and base == 16 and not th: continue
                for ep in (0, 1):
                    if ep == 0 and n != 1: continue
                    def f(x, s, fn=fn, w=w, base=base, n=n, ep=ep):
                        p, b = s.str(n); h, hb = s.lit([1, 2, 3, 4]); x.r.glob['$errno:errno'] = 77
                        r = x.call(S + fn, p, h if ep else 0, base)
                        neg, d, bs, e = parse(s, b + [0, 0, 0], base, True)
                        value(s, fn, r, w, neg, d, bs)
                        x.expect('%s sets errno' % fn, x.r.glob['$errno:errno'], 77)
                        if ep:
                            x.expect('end pointer of ' + fn, x.read(h, 4), p + (e or 0)); s.o[-1][1] = [x.read(h + i, 1) for i in range(4)]
                    add(fn, 'base%d_%d%s' % (base, n, '' if ep else '_noend'), f)
        for pre, base in (('0x', 0), ('0X', 16), (' -0x', 16), ('+0', 0), ('0x', 10), ('0x', 36), ('\v\f\r', 10)):
            def f(x, s, fn=fn, w=w, pre=pre, base=base):
                u = [x.sym('u%d' % i, 8) for i in range(2)]; p, b = s.lit(list(pre.encode()) + u + [0]); h, hb = s.lit([1, 2, 3, 4])
                r = x.call(S + fn, p, h, base)
                neg, d, bs, e = parse(s, b + [0, 0, 0], base, True)
                value(s, fn, r, w, neg, d, bs, clamp(fn))
                x.expect('end pointer of ' + fn, x.read(h, 4), p + (e or 0)); s.o[-1][1] = [x.read(h + i, 1) for i in range(4)]
            add(fn, 'prefix_%s_%d' % (pre.encode().hex(), base), f)
        lo, hi, _ = RANGE[fn]
        for base in (10, 16, 8, 2):
            for lim in [hi] + ([-lo] if lo else []):
                t = ''; v = lim
                while v: t = '0123456789abcdef'[v % base] + t; v //= base
                cs = sorted({48 + i for i in range(min(base, 10))} | ({97 + i for i in range(6)} if base == 16 else set()))
                for neg in ('', '-'):
                    for more in ('', '1') if th or base == 10 else ('',):
                        def f(x, s, fn=fn, w=w, base=base, t=t, neg=neg, more=more, cs=cs):
                            d = x.sym('d', 8, cs); p, b = s.lit(list((neg + t[:-1]).encode()) + [d] + list(more.encode()) + [0]); h, hb = s.lit([1, 2, 3, 4])
                            x.r.glob['$errno:errno'] = 0
                            r = x.call(S + fn, p, h, base)
                            val = lambda d: (-1 if neg else 1) * int(t[:-1] + chr(d) + more, base)
                            cl = clamp(fn); er = erange(fn)
                            x.test(fn, lambda r, d: r & M(w) == cl(val(d)) & M(w), r, d)
                            x.test('errno of ' + fn, lambda e, d: (e == 68) == er(val(d)) and e in (0, 68), x.r.glob['$errno:errno'], d)
                            x.expect('end pointer of ' + fn, x.read(h, 4), p + len(b) - 1); s.o[-1][1] = [x.read(h + i, 1) for i in range(4)]
                        add(fn, 'limit_%d_%x%s%s' % (base, lim, 'neg' if neg else '', more), f)
    # ---- arithmetic
    for fn, w in (('abs', 32), ('labs', 32), ('llabs', 64)):
        for off in (-256, -(1 << w - 1) + 1, (1 << w - 1) - 512, -(1 << 20), 1 << 16):
            def f(x, s, fn=fn, w=w, off=off):
                k = x.sym('n', 9); v = binop('add', w, zext(k, 9, w), off & M(w))
                x.test(fn, lambda r, v: r == abs(sx(v, w)), x.call(S + fn, v), v)
            add(fn, off, f)
    for fn, w in (('div', 32), ('ldiv', 32), ('lldiv', 64)):
        for off in (-256, -(1 << w - 1) + 1, (1 << w - 1) - 512):
            for den in (1, -32):
                def f(x, s, fn=fn, w=w, off=off, den=den):
                    k = x.sym('n', 9, None if th else [0, 1, 2, 7, 100, 255, 256, 257, 263, 300, 510, 511]); v = binop('add', w, zext(k, 9, w), off & M(w)); m = x.sym('d', 5); q = binop('add', w, zext(m, 5, w), den & M(w))
                    p, b = s.buf(w // 4); x.call(S + fn, p, v, q)
                    n = w // 8
                    x.test(fn + ' quotient', lambda r, a, b: sx(r, w) == int(abs(sx(a, w)) // abs(sx(b, w))) * (1 if (sx(a, w) < 0) == (sx(b, w) < 0) else -1), x.read(p, n), v, q)
                    x.test(fn + ' remainder', lambda r, a, b: sx(r, w) == sx(a, w) - int(abs(sx(a, w)) // abs(sx(b, w))) * (1 if (sx(a, w) < 0) == (sx(b, w) < 0) else -1) * sx(b, w), x.read(p + n, n), v, q)
                    s.o[0][1] = [x.read(p + i, 1) for i in range(2 * n)]
                add(fn, '%d_%d' % (off, den), f)
    # ---- random numbers: any state
    def f(x, s):
        d = x.r.img.data['$stdlib:rand48_seed'].addr if '$stdlib:rand48_seed' in x.r.img.data else None
        if d is None: raise Stuck('no rand48_seed')
        for i in range(6): x.r.mem.write(d + i, 1, x.sym('state%d' % i, 8))
        for i in range(2):
            b = bits(x.call(S + 'rand'), 32)
            if b[31] != 0: raise Bad('rand may return a negative number', 'bit 31 clear', 'unknown')
    add('rand', 'range', f)
    def f(x, s):
        k = x.sym('seed', 8); r = []
        for _ in range(2):
            x.call(S + 'srand', zext(k, 8, 32)); r.append([x.call(S + 'rand') for i in range(2)])
        for a, b in zip(*r): x.expect('the sequence after srand', b, a)
    add('rand', 'repeatable', f)
    # ---- searching and sorting
    CMP = 900001

    def cmpf(x, lo, hi, size, log):
        def h(r, p, q):
            for v in (p, q): log.append(v)
            a, b = x.read(p, 1), x.read(q, 1)
            if a is b: return 0
            return x.case(lambda a, b: (1 if a > b else -1 if a < b else 0) & M(32), a, b)
        return h
    for size in (1, 3, 4):
        for n in range(0, 7 if th else 6):
            def f(x, s, size=size, n=n):
                el = [[zext(x.sym('e%d' % i, 3), 3, 8)] + [i] * (size - 1) for i in range(n)]
                key = zext(x.sym('k', 3), 3, 8); kp, _ = s.lit([key]); p, b = s.lit([q for e in el for q in e])
                for i in range(n - 1):
                    if not x.case(lambda a, b: a <= b, el[i][0], el[i + 1][0]): raise Void()
                log = []; x.r.hooks[CMP] = cmpf(x, 0, 0, size, log)
                r = x.conc(x.call(S + 'bsearch', kp, p, n, size, CMP))
                for a, q in zip(log[::2], log[1::2]):
                    if a != kp or (q - p) % size or not 0 <= (q - p) // size < n: raise Bad('bsearch compares something that is not (key, element)')
                if r == 0:
                    for e in el: x.test('bsearch misses an element', lambda a, b: a != b, e[0], key)
                else:
                    if (r - p) % size or not 0 <= (r - p) // size < n: raise Bad('bsearch returns no element')
                    x.expect('bsearch', el[(r - p) // size][0], key, 8)
            add('bsearch', '%d_%d' % (size, n), f)
        for n, dom in [(k, range(k)) for k in range(0, 6 if size == 3 or th else 5)] + [(k, range(2)) for k in ((6, 7, 10, 12, 13) if th else (6, 7, 10) if size == 1 else (6, 7))]:
            def f(x, s, size=size, n=n, dom=dom):
                el = [[zext(x.sym('e%d' % i, 3, dom), 3, 8)] + [i, i + 100, i + 200][:size - 1] for i in range(n)]
                p, b = s.lit([q for e in el for q in e])
                log = []; x.r.hooks[CMP] = cmpf(x, 0, 0, size, log)
                x.call(S + 'qsort', p, n, size, CMP)
                for q in log:
                    if (q - p) % size or not 0 <= (q - p) // size < n: raise Bad('qsort compares something that is not an element')
                now = [[x.read(p + i * size + j, 1) for j in range(size)] for i in range(n)]
                if size > 1:
                    ids = [e[1] for e in now]
                    if sorted(map(str, ids)) != sorted(str(i) for i in range(n)): raise Bad('qsort loses elements', list(range(n)), ids)
                    for e in now:
                        for g, h in zip(e, el[e[1]]): x.expect('qsort tears an element apart', g, h, 8)
                else:
                    if sorted(x_.id for x_, in now) != sorted(x_.id for x_, in el): raise Bad('qsort loses elements')
                for i in range(n - 1): x.test('qsort leaves elements out of order', lambda a, b: a <= b, now[i][0], now[i + 1][0])
                s.o[0][1] = [q for e in now for q in e]
            add('qsort', '%d_%d_%d' % (size, n, len(dom)), f)
    # ---- multibyte characters
    for fn in ('mbtowc', 'mblen'):
        for n in (1, 2, 3, 4):
            for lead, k in ((range(0, 0x80), 1), (range(0x80, 0xc0), 0), (range(0xc2, 0xe0), 2), (range(0xe0, 0xf0), 3), (range(0xf0, 0xf5), 4)):
                def f(x, s, fn=fn, n=n, lead=lead, k=k):
                    u = [x.sym('b0', 8, lead)] + [x.sym('b%d' % i, 8, (0, 0x41, 0x7f, 0x80, 0xa5, 0xbf, 0xc0, 0xff) if i == 3 and k == 4 else range(256)) for i in range(1, n)]
                    p, b = s.lit(u); o, ob = s.buf(4)
                    a = ([o] if fn == 'mbtowc' else []) + [p, n]
                    if k == 4 and n == 4 and fn == 'mbtowc' and x.case(lambda b: b == 0xf4, u[0]):
                        if not x.case(lambda b: b < 0x90, u[1]): raise Void()       # past U+10FFFF
                    if k == 3 and n >= 2 and x.case(lambda b: b == 0xed, u[0]) and not x.case(lambda b: b < 0xa0, u[1]): raise Void()   # surrogates
                    r = x.call(S + fn, *a)
                    ok = 0 < k <= n
                    if ok:
                        for i in range(1, k):
                            if not x.case(lambda b: 0x80 <= b < 0xc0, u[i]): ok = False; break
                    if ok and k == 3 and x.case(lambda a, b: a == 0xe0 and b < 0xa0, u[0], u[1]): ok = False
                    if ok and k == 4 and x.case(lambda a, b: a == 0xf0 and b < 0x90, u[0], u[1]): ok = False
                    if not ok: x.expect(fn + ' of a malformed sequence', r, -1); return
                    if k == 1: x.test(fn, lambda r, b: r == (1 if b else 0), r, u[0])
                    else: x.expect(fn, r, k)
                    if fn == 'mbtowc':
                        v = x.read(o, 4)
                        # bit by bit: every byte contributes its payload
                        pay = [bits(t, 8)[:6] for t in u[1:k]]
                        bs = ()
                        for t in reversed(pay): bs += t
                        bs += bits(u[0], 8)[:{1: 7, 2: 5, 3: 4, 4: 3}[k]]
                        e = mkbits((bs + (0,) * 32)[:32])
                        if e is not v: x.expect('wide character', v, e)
                        s.o[1][1] = [x.read(o + i, 1) for i in range(4)]
                add(fn, '%d_%x' % (n, lead[0]), f)
        def f(x, s, fn=fn): x.expect(fn, x.call(S + fn, *([0, 0, 4] if fn == 'mbtowc' else [0, 4])), 0)
        add(fn, 'null', f)
    for lo in (0, 0x80, 0x200, 0x600, 0x7f0, 0x800, 0xd600, 0xe000, 0xfe00, 0x10000, 0x1f600, 0x10fe00):
        def f(x, s, lo=lo):
            k = x.sym('wc', 9); v = binop('add', 32, zext(k, 9, 32), lo); p, b = s.buf(6)
            n = x.conc(x.call(S + 'wctomb', p, v))
            enc = lambda v: chr(v).encode('utf-8') if not 0xd800 <= v < 0xe000 else b''
            x.test('length from wctomb', lambda v: len(enc(v)) == n, v)
            for i in range(n):
                x.test('byte %d from wctomb' % i, lambda b, v: b == enc(v)[i], x.read(p + i, 1), v); s.o[0][1][i] = x.read(p + i, 1)
        add('wctomb', '%x' % lo, f)
    def f(x, s): x.expect('wctomb', x.call(S + 'wctomb', 0, 65), 0)
    add('wctomb', 'null', f)
    # ---- strings of multibyte characters: made of characters of one to four bytes
    for lens in ((), (1,), (2,), (1, 1), (3, 1), (1, 4), (1, 2, 1)):
        for n in range(0, len(lens) + 3):
            def f(x, s, lens=lens, n=n):
                bs = []; wc = []
                for j, k in enumerate(lens):
                    u = [x.sym('b%d0' % j, 8, range(1, 0x80) if k == 1 else range(0xc2, 0xe0) if k == 2 else range(0xe1, 0xed) if k == 3 else range(0xf1, 0xf4))] + [0x9f if k == 4 and i == 1 else x.sym('b%d%d' % (j, i), 8, range(0x80, 0xc0)) for i in range(1, k)]
                    pay = ()
                    for t in reversed(u[1:]): pay += bits(t, 8)[:6]
                    wc.append(mkbits((pay + bits(u[0], 8)[:{1: 7, 2: 5, 3: 4, 4: 3}[k]] + (0,) * 32)[:32])); bs += u
                p, b = s.lit(bs + [0]); o, ob = s.buf(4 * n)
                x.expect('mbstowcs', x.call(S + 'mbstowcs', o, p, n), min(n, len(lens)))
                for i in range(min(n, len(lens) + 1)):
                    e = wc[i] if i < len(wc) else 0; v = x.read(o + 4 * i, 4)
                    if i < len(wc):
                        for g, h in zip([mkbits(bits(v, 32)[j:j + 8]) for j in (0, 8, 16, 24)], [mkbits(bits(e, 32)[j:j + 8]) for j in (0, 8, 16, 24)]): x.expect('wide character %d from mbstowcs' % i, g, h, 8)
                    else: x.expect('the terminator from mbstowcs', v, 0)
                s.o[1][1] = [x.read(o + i, 1) for i in range(4 * n)]
            add('mbstowcs', '%s_%d' % (''.join(map(str, lens)), n), f)
    for los in ((), (1,), (0x80,), (1, 1), (0x7c0, 0x40), (0x40, 0x10000), (1, 0x800, 1)):
        tot = sum(1 if lo < 0x80 - 9 else 2 if lo < 0x7c0 else 3 if lo < 0xffff else 4 for lo in los)
        for n in range(0, tot + 4):
            def f(x, s, los=los, n=n):
                w = [binop('add', 32, zext(x.sym('w%d' % i, 6), 6, 32), lo) for i, lo in enumerate(los)]
                p = x.words(w + [0]); o, ob = s.buf(n)
                r = x.conc(x.call(S + 'wcstombs', o, p, n)); k = 0; full = False
                for i, t in enumerate(w):
                    m = x.case(lambda v: len(chr(v).encode('utf-8')), t)
                    if k + m > n: full = True; break
                    for j in range(m): x.test('byte %d of character %d from wcstombs' % (j, i), lambda b, v: b == chr(v).encode('utf-8')[j], x.read(o + k + j, 1), t); s.want(o, k + j, x.read(o + k + j, 1))
                    k += m
                if k < n: s.want(o, k, x.read(o + k, 1) if full else 0)
                x.expect('wcstombs', r, k)
            add('wcstombs', '%s_%d' % ('.'.join('%x' % l for l in los), n), f)
    # ---- environment
    for names in (['A=1'], ['AB=1', 'A=2'], ['A=', 'B=x=y'], []):
        for n in (1, 2):
            def f(x, s, names=names, n=n):
                def sizes(r, pc, pb): r.mem.write(pc, 4, len(names)); r.mem.write(pb, 4, sum(len(k) + 1 for k in names)); return 0
                def get(r, pp, pb):
                    for k in names:
                        r.addr(pp, 4, True); r.mem.write(pp, 4, pb); pp += 4
                        for c in k.encode() + b'\0': r.addr(pb, 1, True); r.mem.write(pb, 1, c); pb += 1
                    return 0
                x.r.hooks['$wasi_snapshot_preview1:environ_sizes_get'] = sizes; x.r.hooks['$wasi_snapshot_preview1:environ_get'] = get
                p, b = s.str(n, values=[0, 65, 66, 67])
                for _ in range(2):
                    r = x.conc(x.call(S + 'getenv', p)); l = s.len(b); e = None
                    nm = ''.join(chr(x.conc(t)) for t in b[:l])
                    for k in names:
                        if k.split('=', 1)[0] == nm: e = k.split('=', 1)[1]
                    if e is None: x.expect('getenv(%r)' % nm, r, 0); continue
                    if r == 0: raise Bad('getenv(%r) finds nothing' % nm, e, 0)
                    t = ''
                    while x.read(r, 1): t += chr(x.read(r, 1)); r += 1
                    if t != e: raise Bad('getenv(%r)' % nm, e, t)
            add('getenv', '%s_%d' % ('.'.join(names), n), f)
    return out


def task(c, it):
    fn, key, sc = it
    judge(c, fn, key, sc, W + fn, maxclasses=9000)
    c.seen('functions', fn)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for fn, k, s in l: by[fn] = by.get(fn, 0) + 1
    for fn, n in by.items(): c.need(fn, n)
