"""Time: the functions of time.h are interpreted abstractly on windows of times, broken-down times with unknown members,
unknown TZ offsets and unknown answers of the clock; results are those of the proleptic Gregorian calendar."""
from lib import *
from lib import _id
from c35 import X
import functools
LEVEL = 'other'
W = 'lib/src/time.c:'
T = 'time:'
P = '$wasi_snapshot_preview1:'
EOVERFLOW = 61
F = ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'wday', 'yday', 'isdst')
WD = ('Sunday', 'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday')
MN = ('January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December')


def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def jan1(y):
    """days from 1970-01-01 to January 1 of year y"""
    p = y - 1
    return 365 * (y - 1970) + p // 4 - p // 100 + p // 400 - (1969 // 4 - 1969 // 100 + 1969 // 400)


ML = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


@functools.lru_cache(maxsize=400000)
def civil(t):
    """sec .. yday of a time"""
    d, s = divmod(t, 86400)
    y = 1970 + d * 400 // 146097
    while jan1(y) > d: y -= 1
    while jan1(y + 1) <= d: y += 1
    yd = d - jan1(y); m = 0; k = yd
    while k >= ML[m] + (m == 1 and leap(y)): k -= ML[m] + (m == 1 and leap(y)); m += 1
    return (s % 60, s // 60 % 60, s // 3600, k + 1, m, y - 1900, (d + 4) % 7, yd)


def timeof(sec, mi, hour, mday, mon, year):
    y = year + 1900 + mon // 12; m = mon % 12
    return (jan1(y) + sum(ML[:m]) + (m > 1 and leap(y)) + mday - 1) * 86400 + hour * 3600 + mi * 60 + sec


def environ(x, vars_):
    """vars_: lists of bytes (terms) of NAME=value"""
    def sizes(r, pc, pb): r.mem.write(r.addr(pc, 4, True), 4, len(vars_)); r.mem.write(r.addr(pb, 4, True), 4, sum(len(k) + 1 for k in vars_)); return 0

    def get(r, pp, pb):
        for k in vars_:
            r.addr(pp, 4, True); r.mem.write(pp, 4, pb); pp += 4
            for c in list(k) + [0]: r.addr(pb, 1, True); r.mem.write(pb, 1, c); pb += 1
        return 0
    x.r.hooks[P + 'environ_sizes_get'] = sizes; x.r.hooks[P + 'environ_get'] = get


def words(x, vals):
    a = x.obj([0] * 4 * len(vals))
    for i, v in enumerate(vals): x.r.mem.write(a + 4 * i, 4, v & M(32) if isinstance(v, int) else v)
    return a


def win(x, n, lo, w, name='n', step=1):
    """an unknown in lo, lo + step, .. as a word of w bits"""
    k = x.sym(name, n); t = zext(k, n, w)
    if step != 1: t = binop('mul', w, t, step)
    return k, binop('add', w, t, lo & M(w))


def text(x, p, what, exp):
    for i, c in enumerate(exp + '\0'):
        x.expect('%s: character %d of %r' % (what, i, exp), x.read(p + i, 1), ord(c), 8)


TM = dict(sec=5, min=6, hour=7, mday=8, mon=9, year=110, wday=4, yday=123, isdst=0)


def tm(x, **kw):
    d = dict(TM); d.update(kw)
    return words(x, [d[k] for k in F])


def scenarios(th):
    out = []

    def add(fn, key, body):
        def sc(x): environ(x, ()); body(x, X(x))
        out.append((fn, '%s_%s' % (fn, key), sc))
    D = 86400

    def fields(x, p, what, t, k, kt):
        """the members at p are those of kt(value of k)"""
        for i in range(8):
            x.test('%s: tm_%s' % (what, F[i]), lambda v, k, i=i: sx(v, 32) == civil(kt(k))[i], x.read(p + 4 * i, 4), k)
        x.expect('%s: tm_isdst' % what, x.read(p + 32, 4), 0)
    # ---- gmtime
    days = [jan1(y) for y in (1599, 1699, 1799, 1899, 1968, 1999, 2036, 2099, 2199, 2399)] + [jan1(y) for y in (-8, 0, 4990, 99990, -99990, 10 ** 9, -10 ** 9)]
    for fn in ('gmtime_r', 'gmtime', 'localtime_r', 'localtime'):
        for d in days if fn == 'gmtime_r' else days[3:5]:
            n = (12 if th else 10) if fn == 'gmtime_r' else 8
            for lo, step in ((d * D, D), (d * D + D - 1, D)) + (((d + 59) * D - (40000 if th else 2500), 1),):
                def f(x, s, fn=fn, lo=lo, step=step, n=n):
                    k, t = win(x, n if step != 1 else min(16, n + 3 if th else n + 1), lo, 64, step=step)
                    p = x.obj([0] * 8); x.r.mem.write(p, 8, t); q = words(x, [-1] * 9)
                    r = x.conc(x.call(T + fn, p, q) if fn.endswith('_r') else x.call(T + fn, p))
                    if fn.endswith('_r'): x.expect(fn, r, q)
                    fields(x, r, fn, t, k, lambda k: lo + k * step)
                    x.expect('the argument', x.read(p, 8), t, 64)
                add(fn, '%d_%d' % (lo, step), f)
    # years that do not fit
    for lim in (jan1(1900 + (1 << 31)) * D - 128, jan1(1900 - (1 << 31)) * D - 128, 1 << 63, (1 << 63) - 256, (1 << 31) * 31622400 - 128, -(1 << 31) * 31622400 - 128):
        def f(x, s, lim=lim):
            k, t = win(x, 8, lim, 64); p = x.obj([0] * 8); x.r.mem.write(p, 8, t); q = words(x, [-1] * 9)
            fits = lambda k: -1 << 31 <= civil(sx(lim + k & M(64), 64))[5] < 1 << 31
            r = x.conc(x.call(T + 'gmtime_r', p, q))
            if x.case(fits, k): x.expect('gmtime_r', r, q); fields(x, q, 'gmtime_r', t, k, lambda k: sx(lim + k & M(64), 64))
            else:
                x.expect('gmtime_r of a year that does not fit', r, 0); x.expect('errno', x.r.glob['$errno:errno'], EOVERFLOW)
                for i in range(9): x.expect('gmtime_r of a year that does not fit: member %d' % i, x.read(q + 4 * i, 4), -1)
        add('gmtime_r', 'range_%d' % lim, f)
    # ---- mktime: some members unknown, the others fixed
    base = dict(sec=1, min=2, hour=3, mday=4, mon=5, year=70, isdst=0, wday=-1, yday=-1)
    cases = [[('year', y, 6), ('mon', m, 5)] for y in (-40, 40, 90, 190, 480) for m in (-13, 0)] + \
        [[('mon', 0, 4), ('mday', md, 7)] for md in ((-60, 0) if th else (-60,))] + [[('mon', -30, 5), ('mday', 1, 5)], [('hour', -40, 7), ('min', -70, 8)], [('sec', -30000, 16 if th else 13)], [('mday', -800, 11)],
        [('sec', -130 if th else -40, 8 if th else 7), ('min', -130 if th else -40, 8 if th else 7)], [('year', -3000, 12 if th else 10)], [('year', 7000, 12 if th else 9)], [('mday', 30000, 12)], [('hour', 30000, 12)], [('min', 1 << 30, 8)], [('sec', (1 << 31) - 256, 8)], [('mday', (1 << 31) - 256, 8)], [('hour', -1 << 31, 8)]]
    for ci, syms in enumerate(cases):
        for y in ((70, 100, 0, 104, 71, 200) if not any(n == 'year' for n, _, _ in syms) and ci < 14 else (70,)):
            if y not in (70, 100, 104) and not th and ci > 11: continue
            def f(x, s, syms=syms, y=y):
                m = dict(base); m['year'] = y; ks = []
                for n, lo, b in syms:
                    k, m[n] = win(x, b, lo, 32, n); ks.append((n, lo, k))
                q = words(x, [m[n] for n in F]); r = x.call(T + 'mktime', q)

                def val(*k):
                    d = dict(base); d['year'] = y
                    for (n, lo, _), v in zip(ks, k): d[n] = lo + v
                    return timeof(*[d[n] for n in F[:6]])
                K = [k for _, _, k in ks]
                x.test('mktime', lambda r, *k: sx(r, 64) == val(*k), r, *K)
                for i in range(8): x.test('mktime: tm_%s' % F[i], lambda v, *k, i=i: sx(v, 32) == civil(val(*k))[i], x.read(q + 4 * i, 4), *K)
            add('mktime', '%d_%s' % (y, '_'.join('%s%d' % (n, lo) for n, lo, _ in syms)), f)
    for mon in (12, 14):
        def f(x, s, mon=mon):
            m = dict(base); m['year'] = (1 << 31) - 1; m['mon'] = mon; m['mday'] = 30; q = words(x, [m[n] for n in F])
            x.expect('mktime of a year that does not fit', x.call(T + 'mktime', q), -1, 64)
        add('mktime', 'range_%d' % mon, f)
    # ---- time zones
    tzs = ('EST#', 'EST##', 'EST-#', 'EST+##', 'EST##:5#', 'A-#:##', 'EST#EDT', 'EST##:0#:5#EDT', 'EST', 'VERYLONGNAME##X', 'UTC0', 'A5:##', 'A##:00:##', 'A1:2:##B', 'B###')
    for tz in tzs:
        def parts(x, tz=tz):
            b = []; ds = []; prev = ''
            for c in tz:
                if c == '#': d = x.sym('d%d' % len(ds), 8, range(48, 58)); b.append(d); ds.append((len(b) - 1, d))
                else: b.append(ord(c))
                prev = c
            return b, ds
        import re as _re
        nm, sg, off, nm2 = _re.fullmatch(r'([A-Z]+)([-+]?)([\d#:]*)([A-Z]*)', tz).groups()

        def offset(ds, tz=tz, sg=sg, off=off, raw=False):
            t = off
            for d in ds: t = t.replace('#', chr(d), 1)
            v = 0
            for i, p in enumerate(t.split(':')):
                if len(p) > 2 or i and int(p or '0') > 59: return None if raw else 0
                v += int(p or '0') * (3600, 60, 1)[i]
            return -v if sg == '-' else v

        def f(x, s, parts=parts, offset=offset, nm=nm, nm2=nm2):
            b, ds = parts(x); environ(x, [b'HOME=/x', list(b'TZ=') + b]); dd = x.r.img.data
            for _ in range(2):
                x.call(T + 'tzset')
                x.test('timezone', lambda v, *d: sx(v, 32) == offset(d), x.r.glob['$time:timezone'], *[d for _, d in ds])
                a = dd['$time:tzname'].addr
                if ds and x.case(lambda *d: offset(d, raw=True) is None, *[d for _, d in ds]): continue
                text(x, x.conc(x.read(a, 4)), 'tzname[0]', nm)
                if nm2: text(x, x.conc(x.read(a + 4, 4)), 'tzname[1]', nm2)
        add('tzset', tz, f)
        if tz.count('#') <= 2:
            def f(x, s, parts=parts, offset=offset):
                b, ds = parts(x); environ(x, [list(b'TZ=') + b]); K = [d for _, d in ds]; lo = jan1(2004) * D + 58 * D + 3600 * 3 + 61
                p = x.obj([0] * 8); x.r.mem.write(p, 8, lo); q = words(x, [-1] * 9)
                x.expect('localtime_r', x.call(T + 'localtime_r', p, q), q)
                for i in range(8): x.test('localtime_r: tm_%s' % F[i], lambda v, *k, i=i: sx(v, 32) == civil(lo - offset(k))[i], x.read(q + 4 * i, 4), *K)
                x.expect('mktime of a local time', x.call(T + 'mktime', q), lo, 64)
            add('localtime_r', 'zone_' + tz, f)
            if tz.count('#') <= 1:
                def f(x, s, parts=parts, offset=offset):
                    b, ds = parts(x); environ(x, [list(b'TZ=') + b]); lo = jan1(2004) * D + 58 * D + 3600 * 3 + 61
                    p = x.obj([0] * 8); x.r.mem.write(p, 8, lo); K = [x.conc(d) for _, d in ds]; t = civil(lo - offset(K))
                    q = x.conc(x.call(T + 'ctime', p))
                    text(x, q, 'ctime', '%s %s %2d %02d:%02d:%02d %d\n' % (WD[t[6]][:3], MN[t[4]][:3], t[3], t[2], t[1], t[0], t[5] + 1900))
                add('ctime', 'zone_' + tz, f)
    # ---- asctime
    lims = dict(sec=(0, 61), min=(0, 60), hour=(0, 24), mday=(1, 32), mon=(0, 12), wday=(0, 7))
    for fn in ('asctime', 'asctime_r'):
        for n, lo, hi in [(n,) + lims[n] for n in lims] + [('year', 60, 188), ('year', 8000, 8099), ('year', -900, -800)]:
            def f(x, s, fn=fn, n=n, lo=lo, hi=hi):
                k = x.sym(n, 8, range(hi - lo)); v = binop('add', 32, zext(k, 8, 32), lo & M(32)); q = tm(x, **{n: v}); b, _ = s.buf(26)
                r = x.conc(x.call(T + fn, q, b) if fn[-1] == 'r' else x.call(T + fn, q))
                if fn[-1] == 'r': x.expect(fn, r, b)
                t = dict(TM); t[n] = x.conc(k) + lo
                text(x, r, fn, '%s %s %2d %02d:%02d:%02d %d\n' % (WD[t['wday']][:3], MN[t['mon']][:3], t['mday'], t['hour'], t['min'], t['sec'], t['year'] + 1900))
            add(fn, '%s%d' % (n, lo), f)
    # ---- strftime
    h12 = lambda h: h % 12 or 12
    conv = {'a': ('wday', 0, 7, lambda v: WD[v][:3]), 'A': ('wday', 0, 7, lambda v: WD[v]), 'b': ('mon', 0, 12, lambda v: MN[v][:3]), 'B': ('mon', 0, 12, lambda v: MN[v]),
            'd': ('mday', 1, 32, lambda v: '%02d' % v), 'H': ('hour', 0, 24, lambda v: '%02d' % v), 'I': ('hour', 0, 24, lambda v: '%02d' % h12(v)), 'j': ('yday', 0, 366, lambda v: '%03d' % (v + 1)),
            'm': ('mon', 0, 12, lambda v: '%02d' % (v + 1)), 'M': ('min', 0, 60, lambda v: '%02d' % v), 'p': ('hour', 0, 24, lambda v: 'AM' if v < 12 else 'PM'), 'S': ('sec', 0, 61, lambda v: '%02d' % v),
            'w': ('wday', 0, 7, lambda v: str(v)), 'y': ('year', -150, 350, lambda v: '%02d' % ((v + 1900) % 100)), 'Y': ('year', -900, 8100, lambda v: '%04d' % (v + 1900)), '%': ('sec', 0, 1, lambda v: '%')}

    def strf(x, s, fmt, size, q, exp):
        """exp: list of byte terms or of (fn, terms) to test"""
        b, ob = s.buf(size + 4) if size < 30 else s.buf(30)
        r = x.call(T + 'strftime', b, size, x.cstr(fmt) if isinstance(fmt, str) else x.obj(list(fmt) + [0]), q)
        if len(exp) + 1 > size: x.expect('strftime into %d characters' % size, r, 0); lim = size
        else:
            x.expect('strftime', r, len(exp)); lim = len(exp) + 1
            for i, e in enumerate(exp):
                g = x.read(b + i, 1)
                if isinstance(e, tuple): x.test('strftime %s: character %d' % (fmt, i), lambda g, *a: g == ord(e[0](*a)), g, *e[1])
                else: x.expect('strftime: character %d' % i, g, e, 8)
            x.expect('strftime: terminator', x.read(b + len(exp), 1), 0, 8)
        for i in range(lim, size + 4 if size < 30 else 30): x.expect('strftime into %d characters: byte %d' % (size, i), x.read(b + i, 1), ob[i], 8)
    for c, (n, lo, hi, fn) in sorted(conv.items()):
        for l0 in range(lo, hi, 1024) if c == 'Y' else [lo]:
            def f(x, s, c=c, n=n, lo=l0, hi=min(hi, l0 + 1024), fn=fn):
                k = x.sym(n, 10, range(hi - lo)); v = binop('add', 32, zext(k, 10, 32), lo & M(32)); q = tm(x, **{n: v})
                l = x.case(lambda k: len(fn(k + lo)), k)
                strf(x, s, '<%' + c + '>', 1000, q, [60] + [((lambda k, i=i: fn(k + lo)[i]), (k,)) for i in range(l)] + [62])
            add('strftime', '%s_%d' % (c, l0), f)
    for c in 'UW':
        def f(x, s, c=c):
            y = x.sym('yday', 9, range(366)); w = x.sym('wday', 3, range(7)); q = tm(x, yday=zext(y, 9, 32), wday=zext(w, 3, 32))
            week = lambda y, w: (y + 7 - (w if c == 'U' else (w + 6) % 7)) // 7
            strf(x, s, '%' + c, 1000, q, [((lambda y, w, i=i: '%02d' % week(y, w))and (lambda y, w, i=i: ('%02d' % week(y, w))[i]), (y, w)) for i in range(2)])
        add('strftime', c, f)
    for fmt, exp in (('%H%M', '0706'), ('%A', 'Thursday'), ('ab%dcd', 'ab08cd'), ('%X', '07:06:05'), ('%%%p', '%AM'), ('', ''), ('abc', 'abc'), ('%b%b', 'OctOct')):
        for size in range(0, len(exp) + 3):
            def f(x, s, fmt=fmt, size=size, exp=exp): strf(x, s, fmt, size, tm(x), [ord(c) for c in exp])
            add('strftime', 'size_%s_%d' % (fmt, size), f)
    for n in range(1, 5):
        for size in range(0, n + 3):
            def f(x, s, n=n, size=size):
                b = [x.sym('f%d' % i, 8, [c for c in range(1, 256) if c != 37]) for i in range(n)]
                strf(x, s, b, size, tm(x), b)
            add('strftime', 'literal_%d_%d' % (n, size), f)
    for dst, e in ((0, 'EST'), (1, 'EDT')):
        def f(x, s, dst=dst, e=e):
            environ(x, [b'TZ=EST5EDT']); strf(x, s, '%Z', 20, tm(x, isdst=dst), [ord(c) for c in e])
        add('strftime', 'Z%d' % dst, f)
    # ---- the clock
    for null in (0, 1):
        for lo in (0, 1 << 31, (1 << 32) - 8, 1600000000):
            def f(x, s, lo=lo, null=null):
                k = x.sym('s', 8); e = x.sym('e', 7, range(77)); p, _ = s.buf(8)
                fr = 999999999
                ts = binop('add', 64, binop('mul', 64, zext(k, 8, 64), 10 ** 9), lo * 10 ** 9 + fr)

                def clk(r, id_, prec, pt):
                    x.expect('clock', id_, 0)
                    if x.case(lambda e: e == 0, e): r.mem.write(r.addr(pt, 8, True), 8, ts); return 0
                    return zext(e, 7, 32)
                x.r.hooks[P + 'clock_time_get'] = clk
                r = x.call(T + 'time', 0 if null else p)
                if x.case(lambda e: e == 0, e):
                    x.test('time', lambda r, k: r == lo + k, r, k)
                    if not null: x.test('*time', lambda r, k: r == lo + k, x.read(p, 8), k)
                else:
                    x.expect('time without a clock', r, -1, 64)
                    if not null: x.expect('*time without a clock', x.read(p, 8), -1, 64)
            add('time', '%d_%d' % (lo, null), f)
    for lo in (0, (1 << 32) - 100, 1 << 40):
        def f(x, s, lo=lo):
            k, ts = win(x, 10, lo, 64); e = x.sym('e', 7, range(77))

            def clk(r, id_, prec, pt):
                x.expect('clock', id_, 2)
                if x.case(lambda e: e == 0, e): r.mem.write(r.addr(pt, 8, True), 8, ts); return 0
                return zext(e, 7, 32)
            x.r.hooks[P + 'clock_time_get'] = clk; r = x.call(T + 'clock')
            if x.case(lambda e: e == 0, e): x.expect('clock', r, ts, 64)
            else: x.expect('clock without a clock', r, -1, 64)
        add('clock', lo, f)
    for lo in (0, 1 << 40, -1 << 33):
        def f(x, s, lo=lo):
            k, t = win(x, 8, lo, 64); r = x.call(T + 'difftime', t, 1000)
            x.test('difftime', lambda r, k: sfl(r, 64) == float(lo + k - 1000), r, k)
            r = x.call(T + 'difftime', 1000, t)
            x.test('difftime', lambda r, k: sfl(r, 64) == float(1000 - lo - k), r, k)
        add('difftime', lo, f)
    return out


def task(c, it):
    fn, key, sc = it
    judge(c, fn, key, sc, W + fn, maxclasses=9000)
    c.seen('functions', fn)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for fn, k, s in l: by[fn] = by.get(fn, 0) + 1
    for fn, n in by.items(): c.need(fn, n)
