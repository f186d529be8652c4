"""Formatted output: vsnprintf of the library is interpreted abstractly on every combination of flags, field width,
precision, length modifier and integer, character or string conversion of a grid, with arguments that range over windows of
unknown values and strings of unknown bytes; in every class of arguments the characters stored, the terminator, the bytes
left alone and the returned count must be what C prescribes for the format."""
from lib import *
from lib import _id
from c35 import X
import itertools
LEVEL = 'other'
W = 'lib/src/stdio.c:_vsnprintf'
S = 'stdio:'
FLAGS = [''.join(f) for n in range(6) for f in itertools.combinations('-+ #0', n)]


def va(x, vals):
    """a variable argument area: the count, then one slot of 16 bytes each"""
    b = [0] * 16 + [0] * 16 * len(vals)
    p = x.obj(b); x.r.mem.write(p, 4, len(vals))
    for i, (v, n) in enumerate(vals): x.r.mem.write(p + 16 + 16 * i, n, v)
    return p + 16


def number(conv, flags, width, prec, v):
    """the text C prescribes for an integer conversion; v is the converted value"""
    s = ''
    if conv in 'di': s = '-' if v < 0 else '+' if '+' in flags else ' ' if ' ' in flags else ''
    d = {'x': '%x', 'X': '%X', 'o': '%o'}.get(conv, '%d') % abs(v)
    if prec == 0 and v == 0: d = ''
    if prec is not None: d = d.rjust(prec, '0')
    if '#' in flags:
        if conv == 'o' and not d.startswith('0'): d = '0' + d
        if conv in 'xX' and v: s = '0' + conv
    return field(flags, width, s, d, prec is None)


def field(flags, width, s, d, zeros=False):
    if '-' in flags: return (s + d).ljust(width)
    if zeros and '0' in flags: return s + d.rjust(width - len(s), '0')
    return (s + d).rjust(width)


def text(fn):
    """fn as bytes"""
    return lambda v: fn(v).encode('latin-1')


def output(x, s, fmt, args, fn, v, cap=None, room=None):
    """format into a buffer of the right size; the text must be fn(v) in every class"""
    n = x.case(lambda v: len(fn(v)), v) if v is not None else len(fn(0))
    room = n + 3 if room is None else room
    p = x.obj([0xAA] * room); f = x.cstr(fmt); a = va(x, args)
    r = x.conc(x.call(S + 'vsnprintf', p, M(32) if cap is None else cap, f, a))
    if r != n:
        e = x.c.some() or {}
        raise Bad('printf("%s")%s returns' % (fmt, x.given(e)), n, sx(r, 32))
    k = n if cap is None or n < cap else max(cap - 1, 0)
    for i in range(k):
        g = x.read(p + i, 1)
        if v is None: x.expect('printf("%s"): character %d' % (fmt, i), g, ord(fn(0)[i]), 8)
        else: x.test('printf("%s"): character %d' % (fmt, i), lambda g, v: chr(g) == fn(v)[i], g, v)
    if cap is None or cap: x.expect('printf("%s"): terminator' % fmt, x.read(p + k, 1), 0, 8); k += 1
    for i in range(k, room): x.expect('printf("%s"): byte %d past the end' % (fmt, i - k), x.read(p + i, 1), 0xAA, 8)


SIZES = {'hh': (8, 4), 'h': (16, 4), '': (32, 4), 'l': (32, 4), 'll': (64, 8), 'j': (64, 8), 'z': (32, 4), 't': (32, 4)}


def window(x, bits_, lo, w):
    """an unknown in lo .. lo + 2^bits - 1, as a word of w bits"""
    k = x.sym('n', bits_)
    return binop('add', w, zext(k, bits_, w), lo & M(w))


def conv(c, w, v):
    """the value printed for an argument word v of the type of the length modifier"""
    v &= M(w)
    return sx(v, w) if c in 'di' else v


def scenarios(th):
    out = []

    def add(rule, key, body):
        def sc(x): s = X(x); body(x, s)
        out.append((rule, key, sc))
    widths = ('', '1', '2', '5', '11') if th else ('', '1', '4')
    precs = ('', '.', '.0', '.1', '.3', '.7') if th else ('', '.', '.1', '.3')
    # every combination of flags, width and precision around zero
    for c in 'diuxXo':
        for wd in widths:
            for pr in precs:
                for fl in FLAGS:
                    if wd and fl and fl[-1] != '0' and False: continue
                    def f(x, s, c=c, wd=wd, pr=pr, fl=fl):
                        v = window(x, 5, -11 if c in 'di' else 0, 32); P = None if not pr else int(pr[1:] or 0)
                        output(x, s, '%' + fl + wd + pr + c, [(v, 4)], lambda v: number(c, fl, int(wd or 0), P, conv(c, 32, v)), v)
                    add('integers', '%s%s%s%s' % (fl.replace(' ', '_'), wd, pr, c), f)
    # length modifiers, and the ends of the ranges
    for m, (w, n) in SIZES.items():
        for c in 'diuxXo':
            for lo in (-128, (1 << w - 1) - 128, (1 << w) - 128, 900, 0):
                if lo == 900 and w == 8: continue
                for fl, wd, pr in (('', 0, None), ('+#', 30, None), ('-#', 0, 12), (' 0', 26, None)):
                    def f(x, s, m=m, w=w, n=n, c=c, lo=lo, fl=fl, wd=wd, pr=pr):
                        v = window(x, 8, lo, n * 8)
                        output(x, s, '%' + fl + (str(wd) if wd else '') + ('.%d' % pr if pr is not None else '') + m + c, [(v, n)], lambda v: number(c, fl, wd, pr, conv(c, w, v)), v)
                    add('lengths', '%s%s_%x_%s%d' % (m, c, lo & M(64), fl.replace(' ', '_'), wd), f)
    # wide fields, widths and precisions from arguments
    for c in 'dxo':
        for fl in ('', '-', '0', '+', '#', '#0', '-#'):
            for wd in (31, 32, 33, 40, 70):
                def f(x, s, c=c, fl=fl, wd=wd):
                    v = window(x, 4, -6 if c == 'd' else 0, 32)
                    output(x, s, '%%%s%d%s' % (fl, wd, c), [(v, 4)], lambda v: number(c, fl, wd, None, conv(c, 32, v)), v)
                add('wide', '%s%d%s' % (fl, wd, c), f)

                def f(x, s, c=c, fl=fl, wd=wd):
                    v = window(x, 4, -6 if c == 'd' else 0, 32)
                    output(x, s, '%%%s%d.%d%s' % (fl, wd + 3, wd, c), [(v, 4)], lambda v: number(c, fl, wd + 3, wd, conv(c, 32, v)), v)
                add('wide', '%s.%d%s' % (fl, wd, c), f)
            for lo in (-4, 4) + ((-132, 124, 252, -260) if c == 'd' and fl in ('', '-', '0') else ()):
                def f(x, s, c=c, fl=fl, lo=lo):
                    k = window(x, 3, lo, 32); val = 7
                    g = lambda k: number(c, fl + ('-' if sx(k, 32) < 0 else ''), abs(sx(k, 32)), None, val)
                    output(x, s, '%' + fl + '*' + c, [(k, 4), (val, 4)], g, k)
                add('star', '%s%d*%s' % (fl, lo, c), f)

                def f(x, s, c=c, fl=fl, lo=lo):
                    k = window(x, 3, lo, 32); val = 0 if lo < 0 else 9
                    g = lambda k: number(c, fl, 6, None if sx(k, 32) < 0 else sx(k, 32), val)
                    output(x, s, '%' + fl + '6.*' + c, [(k, 4), (val, 4)], g, k)
                add('star', '%s.%d*%s' % (fl, lo, c), f)
    # characters and strings
    for fl in ('', '-'):
        for wd in (0, 1, 2, 5):
            def f(x, s, fl=fl, wd=wd):
                k = x.sym('c', 8); v = zext(k, 8, 32)
                output(x, s, '%%%s%sc' % (fl, wd or ''), [(v, 4)], lambda v: field(fl, wd, '', chr(v)), v)
            add('characters', '%s%d' % (fl, wd), f)
            for pr in (None, 0, 1, 2, 3):
                for n in (0, 1, 2, 3):
                    for star in (0, 1):
                        if star and pr is None: continue
                        for term in (0, 1):
                            if not term and (pr is None or pr > n): continue
                            def f(x, s, fl=fl, wd=wd, pr=pr, n=n, term=term, star=star):
                                b = [x.sym('b%d' % i, 8, range(1, 256)) for i in range(n)]
                                q = x.obj(b + [0] * term)
                                k = n if pr is None else min(n, pr); pad = [32] * max(0, wd - k); t = b[:k] + pad if fl else pad + b[:k]
                                p = x.obj([0xAA] * (len(t) + 3))
                                fmt = '%%%s%s%ss' % (fl, wd or '', '' if pr is None else '.*' if star else '.%d' % pr)
                                r = x.call(S + 'vsnprintf', p, M(32), x.cstr(fmt), va(x, ([(pr, 4)] if star else []) + [(q, 4)]))
                                x.expect('printf("%s") returns' % fmt, r, len(t))
                                for i, e in enumerate(t + [0, 0xAA, 0xAA]): x.expect('printf("%s"): character %d' % (fmt, i), x.read(p + i, 1), e, 8)
                            add('strings', '%s%d.%s_%d%d%d' % (fl, wd, pr, n, term, star), f)
    def f(x, s):
        for pr in (-1, -7):
            q = x.cstr('abc'); p = x.obj([0xAA] * 8)
            r = x.call(S + 'vsnprintf', p, M(32), x.cstr('%.*s'), va(x, [(pr & M(32), 4), (q, 4)])); x.expect('printf("%.*s") with a negative precision', r, 3)
    add('strings', 'negative precision', f)
    # ordinary characters, %%, several conversions, the size limit
    for n in range(0, 4):
        def f(x, s, n=n):
            b = [x.sym('b%d' % i, 8, [c for c in range(1, 256) if c != 37]) for i in range(n)]
            p = x.obj([0xAA] * (n + 6)); q = x.obj(b[:1] + [37, 37] + b[1:] + [0]); t = b[:1] + [37] + b[1:]
            x.expect('returned count', x.call(S + 'vsnprintf', p, M(32), q, va(x, [])), n + 1)
            for i, e in enumerate(t + [0]): x.expect('ordinary character %d' % i, x.read(p + i, 1), e, 8)
        add('ordinary', n, f)
    for fmt, args, fn in (('%d,%s|%c%x', 'dscx', lambda v: '%d,ab|z%x' % (v, v)), ('[%5lld]%-3d%%%hhu', 'ldd', lambda v: '[%5d]%-3d%%%d' % (v, v, v)),
                          ('%s%s', 'ss', lambda v: 'abab'), ('%llu%d%llx%d', 'ldld', lambda v: '%d%d%x%d' % (v, v, v, v)), ('%3$', '', None)):
        if fn is None: continue
        for cap in [None] + list(range(0, 26 if th else 14)):
            def f(x, s, fmt=fmt, args=args, fn=fn, cap=cap):
                v = window(x, 4, 5, 32); a = []
                for k in args: a.append((v, 4) if k in 'dx' else (zext(v, 32, 64), 8) if k == 'l' else (122, 4) if k == 'c' else (x.cstr('ab'), 4))
                room = None if cap is None else cap + 3
                output(x, s, fmt, a, fn, v, cap, room)
            add('limits', '%s_%s' % (fmt, cap), f)
    # entry points
    for fn in ('sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'snprintf0'):
        def f(x, s, fn=fn):
            v = window(x, 6, -20, 32); q = x.cstr('<%d>'); a = va(x, [(v, 4)]); r_ = lambda v: '<%d>' % sx(v, 32)
            n = x.case(lambda v: len(r_(v)), v); p = x.obj([0xAA] * (n + 2))
            if fn == 'snprintf0': r = x.call(S + 'vsnprintf', 0, 0, q, a)
            elif 'sn' in fn: r = x.call(S + fn, p, n + 1, q, a)
            else: r = x.call(S + fn, p, q, a)
            x.expect(fn + ' returns', r, n)
            for i in range(n) if fn != 'snprintf0' else (): x.test('%s: character %d' % (fn, i), lambda g, v: chr(g) == r_(v)[i], x.read(p + i, 1), v)
            if fn != 'snprintf0': x.expect(fn + ': terminator', x.read(p + n, 1), 0, 8)
        add('entry', fn, f)
    for fn in ('printf', 'fprintf', 'vprintf', 'vfprintf'):
        def f(x, s, fn=fn):
            got = []
            v = window(x, 5, -9, 32); k = x.sym('c', 8); q = x.cstr('<%d%c>'); a = va(x, [(v, 4), (zext(k, 8, 32), 4)])
            x.r.hooks['$stdio:_flushbuf'] = lambda r, c, fp: (got.append(trunc(c, 32, 8)), 0)[1]
            iob = x.r.img.data['$stdio:_iob'].addr; out_ = iob + x.r.img.data['$stdio:_iob'].size // 20 * 1
            r_ = lambda v: '<%d' % sx(v, 32); n = x.case(lambda v: len(r_(v)), v)
            fp = stream(x, 1)
            r = x.call(S + fn, *(([fp] if fn in ('fprintf', 'vfprintf') else []) + [q, a]))
            x.expect(fn + ' returns', r, n + 2)
            if len(got) != n + 2: raise Bad('%s sends %d characters' % (fn, len(got)), n + 2, len(got))
            for i in range(n): x.test('%s: character %d' % (fn, i), lambda g, v: chr(g) == r_(v)[i], got[i], v)
            x.expect(fn + ': %c', got[n], k, 8); x.expect(fn + ': the end', got[n + 1], 62, 8)
        add('entry', fn, f)
    return out


def stream(x, i):
    d = x.r.img.data['$stdio:_iob']; n = d.size
    return d.addr + i * (n // 20)


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, W, maxclasses=3000)
    c.seen('formats', key)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
