"""Models of the C library for the abstract interpreter, and the driver units that start an analysis.

Driver units (drv/*.c) include the repository's own headers and build abstract inputs through its public interface; they
are only ever analysed, never run.  Streams collect what is written to them: an item is a byte (int or term) or
('fmt', spec, term) for a formatted unknown."""
import os, re, struct
import ir
from ir import AnalysisError, Program, Module, compile_ir, REPO
from absint import *
from absint import NOTHANDLED, Exit

HERE = os.path.dirname(os.path.abspath(__file__))
DRV = os.path.join(HERE, 'drv')
_cache = {}


def program(drivers=('libc.c',), units=None):
    """the compiler's units plus driver units"""
    key = (tuple(drivers), tuple(units or ()))
    if key in _cache: return _cache[key]
    if units is None: units = sorted(f for f in os.listdir(REPO) if f.endswith('.c'))
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(u, os.path.join(REPO, u), ()) for u in units] + \
           [('drv/' + d, os.path.join(DRV, d), ('-I' + REPO, '-fno-builtin')) for d in drivers]
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(lambda j: compile_ir(j[1], cflags=j[2]), jobs))
    pr = Program([Module(j[0], t) for j, t in zip(jobs, texts)])
    _cache[key] = pr
    return pr


# ---------------------------------------------------------------- streams
def out_add(st, f, items):
    k = ('out', f.obj if isinstance(f, P) else str(f))
    st.data[k] = (st.data.get(k), tuple(items))


def out_get(st, f):
    k = ('out', f.obj if isinstance(f, P) else str(f))
    r = []; n = st.data.get(k)
    while n is not None:
        r.append(n[1]); n = n[0]
    out = []
    for c in reversed(r): out.extend(c)
    return out


def stream(st, name):
    o = ('h', 'FILE:' + name)
    st.mem[o] = Obj(('sym', o)); st.own.add(o)
    return P(o, 0)


def mem_items(eng, st, p, n):
    p = eng.to_ptr(p)
    if not isinstance(n, int) or p is None or not isinstance(p.off, int): return None
    return [eng.simp(st, eng.load(st, P(p.obj, p.off + i), 1)) for i in range(n)]


def str_items(eng, st, p, limit=100000):
    """bytes of a C string; formatted unknowns were stored as marker terms"""
    p = eng.to_ptr(p)
    if p is None or not isinstance(p.off, int): return None
    out = []
    for i in range(limit):
        v = unmark(eng, st, eng.simp(st, eng.load(st, P(p.obj, p.off + i), 1)))
        if v == 0: return out
        if isinstance(v, E) and v.op != 'fmt' and not _nonzero(eng, st, v): return None
        out.append(v)
    return None


def unmark(eng, st, v):
    """a marker byte of which some bits were replaced by what is known of them is still that marker"""
    if isinstance(v, E) and v.op == 'bits':
        for b in v.a[0]:
            if isinstance(b, tuple):
                if b[0].op == 'fmt' and v.w == 8:
                    r = eng.pull(st, v)
                    if r is not None and r[2] == 8: return b[0]
                return v
    return v


def _nonzero(eng, st, v):
    return eng.icmp(st, 'eq', 8, v, 0) is False


def marker(spec, v):
    return mk('fmt', 8, spec, v)


def h_fputc(eng, st, ins, args):
    out_add(st, args[1], [trunc(args[0], 32, 8) if not isinstance(args[0], int) else args[0] & 255])
    return args[0] if not isinstance(args[0], int) else args[0] & 255


def h_fwrite(eng, st, ins, args):
    n = None
    if isinstance(args[1], int) and isinstance(args[2], int): n = args[1] * args[2]
    if n == 0: return 0
    it = mem_items(eng, st, args[0], n)
    if it is None: it = [mk('blob', 8, args[0] if isinstance(args[0], (int, E)) else 0)]
    out_add(st, args[3], it)
    return args[2]


def h_fputs(eng, st, ins, args):
    it = str_items(eng, st, args[0])
    out_add(st, args[1], it if it is not None else [mk('str', 8, str(args[0]))])
    return 1


SPEC = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L)?([diouxXcsfFeEgGaApn%])')


def do_format(eng, st, fmt, nextarg):
    """fmt: bytes; nextarg(kind) -> value; returns a list of items"""
    out = []; pos = 0
    while pos < len(fmt):
        i = fmt.find(b'%', pos)
        if i < 0: out.extend(fmt[pos:]); break
        out.extend(fmt[pos:i])
        m = SPEC.match(fmt, i)
        if not m: raise AnalysisError('format %r' % fmt)
        pos = m.end()
        cv = m.group(5)
        if cv == b'%': out.append(37); continue
        w = m.group(2); pr = m.group(3)
        hasdot = b'.' in m.group(0)
        if w == b'*':
            w = nextarg(32); w = sx(w, 32) if isinstance(w, int) else None
        elif w: w = int(w)
        if pr == b'*':
            pr = nextarg(32); pr = sx(pr, 32) if isinstance(pr, int) else None
            if pr is not None and pr < 0: pr = None; hasdot = False
        elif pr is not None: pr = int(pr)
        elif hasdot: pr = 0
        ln = (m.group(4) or b'').decode()
        c = cv.decode()
        flags = m.group(1).decode()
        if c == 's':
            p = nextarg(64)
            it = str_items(eng, st, p) if not (hasdot and pr == 0) else []
            if it is None and hasdot and isinstance(pr, int):
                it = mem_items(eng, st, p, pr)
                if it and 0 in it: it = it[:it.index(0)]
            if it is None: it = [mk('fmt', 8, 's', p if isinstance(p, (int, E)) else mk('ptrbits', 64, p))]
            if hasdot and isinstance(pr, int): it = it[:pr]
            if isinstance(w, int):
                pad = [32] * max(0, abs(w) - len(it))
                it = it + pad if '-' in flags or w < 0 else pad + it
            out.extend(it)
        elif c in 'diouxXc':
            bitsn = {'': 32, 'h': 32, 'hh': 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64}[ln]
            v = nextarg(bitsn)
            if c == 'c':
                x = v & 255 if isinstance(v, int) else trunc(v, 32, 8) if isinstance(v, E) else v
                pad = [32] * (abs(w) - 1) if isinstance(w, int) else []
                out.extend([x] + pad if '-' in flags or isinstance(w, int) and w < 0 else pad + [x]); continue
            if isinstance(v, int):
                if ln == 'hh': v &= 255
                elif ln == 'h': v &= 65535
                bw = {'hh': 8, 'h': 16}.get(ln, bitsn)
                if c in 'di': v = sx(v, bw)
                spec = '%' + flags + (str(w) if isinstance(w, int) and w >= 0 else '') + ('.%d' % pr if hasdot and isinstance(pr, int) else '') + ('d' if c in 'diu' else c)
                out.extend((spec % v).encode())
            else:
                mm = marker(c + str(bitsn), v if isinstance(v, E) else mk('ptrbits', 64, v))
                eng.assume_set(st, mm, 8, [(49, 57)]); out.append(mm)
        elif c in 'fFeEgGaA':
            v = nextarg('d')
            if isinstance(v, E) and v.op == 'fconst' and v.w == 64:
                d = struct.unpack('<d', struct.pack('<Q', v.a[0]))[0]
                out.extend(fmtdouble(m.group(0), c, flags, w, pr if hasdot else None, d).encode())
            else:
                mm = marker(c + (('.%s' % pr) if hasdot else ''), v if isinstance(v, (int, E)) else 0)
                eng.assume_set(st, mm, 8, [(49, 57)]); out.append(mm)
        elif c == 'p':
            v = nextarg(64); out.append(marker('p', v if isinstance(v, E) else mk('ptrbits', 64, v) if not isinstance(v, int) else v))
        else:
            raise AnalysisError('format %r' % fmt)
    return out


def fmtdouble(whole, c, flags, w, pr, d):
    if c in 'aA':
        import math
        if d != d or d in (math.inf, -math.inf): s = str(d)
        else:
            s = d.hex()
            m = re.match(r'(-?)0x(\d)\.?([0-9a-f]*)p([+-]\d+)', s)
            frac = m.group(3).rstrip('0')
            s = m.group(1) + '0x' + m.group(2) + ('.' + frac if frac else '') + 'p' + m.group(4)
        return s
    spec = '%' + flags + (str(w) if isinstance(w, int) and w >= 0 else '') + ('.%d' % pr if isinstance(pr, int) else '') + c
    return spec % d


def va_reader(eng, st, vap):
    """reads successive arguments of a System V va_list held in analysed memory"""
    p = eng.to_ptr(vap)
    def nxt(kind):
        area = eng.load(st, P(p.obj, p.off + 8), 8)
        a = eng.to_ptr(area)
        v = eng.simp(st, eng.load(st, a, 8))
        eng.store(st, P(p.obj, p.off + 8), 8, P(a.obj, addoff(a.off, 8)))
        if kind == 32: v = v & M(32) if isinstance(v, int) else trunc(v, 64, 32) if isinstance(v, E) else v
        return v
    return nxt


def list_reader(args):
    it = list(args)
    def nxt(kind):
        v = it.pop(0) if it else fresh('noarg', 64)
        if kind == 32: v = v & M(32) if isinstance(v, int) else trunc(v, v.w, 32) if isinstance(v, E) and v.w and v.w > 32 else v
        elif kind == 64 and isinstance(v, int): v &= M(64)
        return v
    return nxt


def store_items(eng, st, p, items, n=None):
    p = eng.to_ptr(p)
    tot = len(items)
    if n is not None:
        if n == 0: return tot
        items = items[:n - 1]
    for i, b in enumerate(list(items) + [0]): eng.store(st, P(p.obj, addoff(p.off, i)), 1, b)
    return tot


def fmt_hook(kind, va):
    def h(eng, st, ins, args):
        if kind == 'f': dst, fmt, rest = args[0], args[1], args[2:]
        elif kind == 'p': dst, fmt, rest = 'stdout', args[0], args[1:]
        elif kind == 's': dst, fmt, rest = args[0], args[1], args[2:]
        else: dst, n, fmt, rest = args[0], args[1], args[2], args[3:]
        f = eng.cstr(st, fmt)
        if f is None:
            if kind in 'fp': out_add(st, dst, [mk('fmt', 8, 'unknown')])
            return fresh('fmtlen', 32)
        items = do_format(eng, st, f, va_reader(eng, st, rest[0]) if va else list_reader(rest))
        if kind in 'fp': out_add(st, dst, items)
        elif kind == 's': store_items(eng, st, dst, items)
        else:
            if not isinstance(n, int): eng.havoc(st, dst)
            else: store_items(eng, st, dst, items, n)
        return len(items)
    return h


# ---------------------------------------------------------------- memory and strings
def h_malloc(eng, st, ins, args):
    return eng.new_obj(st, 'malloc', 'undef', args[0] if isinstance(args[0], int) else None)


def h_calloc(eng, st, ins, args):
    n = args[0] * args[1] if isinstance(args[0], int) and isinstance(args[1], int) else None
    return eng.new_obj(st, 'calloc', 'zero', n)


def h_realloc(eng, st, ins, args):
    n = args[1] if isinstance(args[1], int) else None
    q = eng.new_obj(st, 'realloc', 'undef', n)
    p = args[0]
    if isinstance(p, P):
        o = eng.obj(st, p.obj)
        c = o.copy(); c.base = o.base
        st.mem[q.obj] = c; st.own.add(q.obj)
        st.data[('freed', p.obj)] = True
    return q


def h_free(eng, st, ins, args):
    if isinstance(args[0], P): st.data[('freed', args[0].obj)] = True
    return None


def h_strcpy(eng, st, ins, args):
    it = str_items(eng, st, args[1])
    if it is None: eng.havoc(st, args[0])
    else: store_items(eng, st, args[0], it)
    return args[0]


def h_strncpy(eng, st, ins, args):
    it = str_items(eng, st, args[1]); n = args[2]
    if it is None or not isinstance(n, int): eng.havoc(st, args[0]); return args[0]
    it = (it + [0] * n)[:n]
    p = eng.to_ptr(args[0])
    for i, b in enumerate(it): eng.store(st, P(p.obj, addoff(p.off, i)), 1, b)
    return args[0]


def h_strcat(eng, st, ins, args):
    a = str_items(eng, st, args[0]); b = str_items(eng, st, args[1])
    if a is None or b is None: eng.havoc(st, args[0]); return args[0]
    p = eng.to_ptr(args[0])
    store_items(eng, st, P(p.obj, p.off + len(a)), b)
    return args[0]


def h_strlen2(eng, st, ins, args):
    it = str_items(eng, st, args[0])
    return len(it) if it is not None else fresh('strlen', 64)


def h_find(fn):
    def h(eng, st, ins, args):
        a = eng.cstr(st, args[0]); b = eng.cstr(st, args[1]) if isinstance(args[1], P) else args[1]
        if a is None or b is None or isinstance(b, E): return fresh(fn, 64)
        p = eng.to_ptr(args[0])
        if fn == 'strrchr': i = (a + b'\0').rfind(bytes([b & 255]))
        elif fn == 'strstr': i = a.find(b)
        elif fn == 'strpbrk': i = min([a.find(bytes([c])) for c in b if bytes([c]) in a], default=-1)
        elif fn == 'strspn':
            i = 0
            while i < len(a) and a[i] in b: i += 1
            return i
        elif fn == 'strcspn':
            i = 0
            while i < len(a) and a[i] not in b: i += 1
            return i
        if i < 0: return 0
        return P(p.obj, p.off + i)
    return h


def cmp_items(eng, st, args, n=None):
    """string comparison by what is known of each byte; None if it cannot be told"""
    p = eng.to_ptr(args[0]); q = eng.to_ptr(args[1])
    if p is None or q is None or not isinstance(p.off, int) or not isinstance(q.off, int): return None
    i = 0
    while n is None or i < n:
        x = eng.simp(st, eng.load(st, P(p.obj, p.off + i), 1)); y = eng.simp(st, eng.load(st, P(q.obj, q.off + i), 1))
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return 1 if x > y else M(32)
            if x == 0: return 0
        else:
            if eng.icmp(st, 'ugt', 8, x, y) is True: return 1
            if eng.icmp(st, 'ult', 8, x, y) is True: return M(32)
            return None
        i += 1
    return 0


def h_strcmp2(eng, st, ins, args):
    r = cmp_items(eng, st, args)
    return r if r is not None else h_strcmp(eng, st, ins, args)


def h_strncmp2(eng, st, ins, args):
    r = cmp_items(eng, st, args, args[2]) if isinstance(args[2], int) else None
    return r if r is not None else h_strncmp(eng, st, ins, args)


def h_memcmp(eng, st, ins, args):
    n = args[2]
    if not isinstance(n, int): return fresh('memcmp', 32)
    a = mem_items(eng, st, args[0], n); b = mem_items(eng, st, args[1], n)
    if a is None or b is None: return fresh('memcmp', 32)
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return 1 if x > y else M(32)
        elif x is not y: return fresh('memcmp', 32)
    return 0


def h_memchr(eng, st, ins, args):
    n = args[2]
    a = mem_items(eng, st, args[0], n)
    if a is None or not isinstance(args[1], int): return fresh('memchr', 64)
    for i, x in enumerate(a):
        if not isinstance(x, int): return fresh('memchr', 64)
        if x == args[1] & 255:
            p = eng.to_ptr(args[0]); return P(p.obj, p.off + i)
    return 0


def h_ctype(eng, st, ins, args):
    o = ('h', 'ctype'); po = ('h', 'ctypeptr')
    if o not in st.mem:
        b = Obj(('zero', o)); st.mem[o] = b; st.own.add(o)
        U, L, A, D, X, S, PR, G, BL, C, PU, AN = 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 1, 2, 4, 8
        for c in range(-128, 256):
            f = 0
            if 65 <= c <= 90: f |= U | A
            if 97 <= c <= 122: f |= L | A
            if 48 <= c <= 57: f |= D
            if f & (A | D): f |= AN
            if 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102: f |= X
            if c == 32 or 9 <= c <= 13: f |= S
            if c in (9, 32): f |= BL
            if 32 <= c <= 126: f |= PR
            if 33 <= c <= 126: f |= G
            if 0 <= c < 32 or c == 127: f |= C
            if 33 <= c <= 126 and not f & AN: f |= PU
            b.cells[(c + 128) * 2] = (2, f)
        q = Obj(('zero', po)); q.cells[0] = (8, P(o, 256)); st.mem[po] = q; st.own.add(po)
    return P(po, 0)


def h_tocase(up):
    def h(eng, st, ins, args):
        c = args[0]
        if not isinstance(c, int): return fresh('tocase', 32)
        if up and 97 <= c <= 122: return c - 32
        if not up and 65 <= c <= 90: return c + 32
        return c
    return h


def h_errno(eng, st, ins, args):
    o = ('h', 'errno')
    if o not in st.mem:
        b = Obj(('zero', o)); st.mem[o] = b; st.own.add(o)
    return P(o, 0)


def num_marker(eng, st, p, kinds):
    """(sign, value term) if the string at p is an optional '-' and one formatted unknown, else None; also its length"""
    it = str_items(eng, st, p)
    if not it: return None
    neg = it[0] == 45
    if neg: it = it[1:]
    if len(it) == 1 and isinstance(it[0], E) and it[0].op == 'fmt' and it[0].a[0] in kinds:
        return neg, it[0].a[1], len(it) + neg
    return None


def h_strtoi(signed, w=64):
    def h(eng, st, ins, args):
        s = eng.cstr(st, args[0]); base = args[2]
        if s is None and isinstance(base, int):
            r = num_marker(eng, st, args[0], ('abs64',) if base in (0, 10) else ())
            if r is not None:
                p = eng.to_ptr(args[0])
                if isinstance(args[1], P): eng.store(st, args[1], 8, P(p.obj, p.off + r[2]))
                # the text is a decimal numeral of at most 64 bits; signed overflow only beyond INT64
                return binop('sub', 64, 0, r[1]) if r[0] else r[1]
        if s is None or not isinstance(base, int): return fresh('strtoi', w)
        m = re.match(rb'[ \t\n\v\f\r]*([-+]?)', s)
        i = m.end(); neg = m.group(1) == b'-'
        t = s[i:].lower()
        if base in (0, 16) and re.match(rb'0x[0-9a-f]', t): b2 = 16; i += 2; t = t[2:]
        elif base == 0: b2 = 8 if t[:1] == b'0' else 10
        else: b2 = base
        digs = b'0123456789abcdefghijklmnopqrstuvwxyz'[:b2]
        j = 0
        while j < len(t) and t[j] in digs: j += 1
        p = eng.to_ptr(args[0])
        if isinstance(args[1], P): eng.store(st, args[1], 8, P(p.obj, p.off + (i + j if j else 0)))
        if not j: return 0
        v = int(t[:j], b2)
        lim = M(w)
        if signed:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            v = -v if neg else v
            if not lo <= v <= hi:
                v = lo if v < lo else hi; eng.store(st, h_errno(eng, st, ins, ()), 4, 34)
            return v & lim
        if v > lim: eng.store(st, h_errno(eng, st, ins, ()), 4, 34); return lim
        return (-v if neg else v) & lim
    return h


FLT_RE = re.compile(rb'[ \t\n\v\f\r]*([-+]?)(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][-+]?\d+)?|inf(?:inity)?|nan(?:\([0-9a-zA-Z_]*\))?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)', re.I)


def strtod_val(s):
    m = FLT_RE.match(s)
    if not m: return None, 0
    b = m.group(2).lower().decode(); neg = m.group(1) == b'-'
    if b.startswith('0x'):
        v = float.fromhex(b)
    elif b.startswith('nan'): v = float('nan')
    elif b.startswith('inf'): v = float('inf')
    else: v = float(b)
    return (-v if neg else v), m.end()


def h_strtod(w):
    def h(eng, st, ins, args):
        s = eng.cstr(st, args[0])
        if s is None: return fresh('strtod', w)
        v, n = strtod_val(s)
        p = eng.to_ptr(args[0])
        if len(args) > 1 and isinstance(args[1], P): eng.store(st, args[1], 8, P(p.obj, p.off + n))
        if v is None: v = 0.0
        if w == 64: return mk('fconst', 64, struct.unpack('<Q', struct.pack('<d', v))[0])
        try: return mk('fconst', 32, struct.unpack('<I', struct.pack('<f', v))[0])
        except OverflowError: return mk('fconst', 32, 0x7f800000 | (v < 0) << 31)
    return h


# ---------------------------------------------------------------- input streams
def set_input(st, name, items):
    """file name -> contents, as items"""
    st.data[('file', name)] = tuple(items)


def h_fopen(eng, st, ins, args):
    n = eng.cstr(st, args[0])
    if n is None: return fresh('fopen', 64)
    key = ('file', n.decode('latin-1'))
    if key not in st.data: return 0
    f = stream(st, 'in:' + key[1])
    st.data[('in', f.obj)] = (st.data[key], 0)
    return f


def h_fgets(eng, st, ins, args):
    p, n, f = args
    v = st.data.get(('in', f.obj)) if isinstance(f, P) else None
    if v is None or not isinstance(n, int): return fresh('fgets', 64)
    items, pos = v
    if pos >= len(items): return 0
    out = []
    while pos < len(items) and len(out) < n - 1:
        b = items[pos]; pos += 1; out.append(b)
        if b == 10: break
    st.data[('in', f.obj)] = (items, pos)
    store_items(eng, st, p, out)
    return p


def h_fgetc(eng, st, ins, args):
    f = args[0]
    v = st.data.get(('in', f.obj)) if isinstance(f, P) else None
    if v is None: return fresh('fgetc', 32)
    items, pos = v
    if pos >= len(items): return M(32)
    st.data[('in', f.obj)] = (items, pos + 1)
    b = items[pos]
    return b if isinstance(b, int) else zext(b, 8, 32)


def h_ungetc(eng, st, ins, args):
    f = args[1]
    v = st.data.get(('in', f.obj)) if isinstance(f, P) else None
    if v is not None and v[1] > 0: st.data[('in', f.obj)] = (v[0], v[1] - 1)
    return args[0]


def const_hook(v):
    return lambda eng, st, ins, args: v


LIBC = {
    'malloc': h_malloc, 'calloc': h_calloc, 'realloc': h_realloc, 'free': h_free,
    'fputc': h_fputc, 'putc': h_fputc, '_IO_putc': h_fputc, 'fwrite': h_fwrite, 'fputs': h_fputs,
    'fprintf': fmt_hook('f', False), 'vfprintf': fmt_hook('f', True), 'printf': fmt_hook('p', False),
    'sprintf': fmt_hook('s', False), 'vsprintf': fmt_hook('s', True), 'snprintf': fmt_hook('n', False),
    'vsnprintf': fmt_hook('n', True),
    'fopen': h_fopen, 'fgets': h_fgets, 'fgetc': h_fgetc, 'getc': h_fgetc, 'ungetc': h_ungetc,
    'ferror': const_hook(0), 'fflush': const_hook(0), 'fclose': const_hook(0),
    'strcmp': h_strcmp2, 'strncmp': h_strncmp2, 'strcpy': h_strcpy, 'strncpy': h_strncpy, 'strcat': h_strcat, 'strlen': h_strlen2,
    'strrchr': h_find('strrchr'), 'strstr': h_find('strstr'), 'strpbrk': h_find('strpbrk'),
    'strspn': h_find('strspn'), 'strcspn': h_find('strcspn'), 'memcmp': h_memcmp, 'memchr': h_memchr,
    '__ctype_b_loc': h_ctype, 'toupper': h_tocase(True), 'tolower': h_tocase(False),
    '__errno_location': h_errno, 'strtol': h_strtoi(True), 'strtoll': h_strtoi(True),
    'strtoul': h_strtoi(False), 'strtoull': h_strtoi(False), 'strtod': h_strtod(64), 'strtof': h_strtod(32),
    '__isoc23_strtol': h_strtoi(True), '__isoc23_strtoll': h_strtoi(True), '__isoc23_strtoul': h_strtoi(False),
    '__isoc23_strtoull': h_strtoi(False), 'getenv': const_hook(0),
}


def engine(prog, hooks=None, **kw):
    h = dict(LIBC)
    if hooks: h.update(hooks)
    kw.setdefault('symglobals', False)
    kw.setdefault('maxsteps', 3000000)
    kw.setdefault('maxvisits', 200000)
    en = Engine(prog, hooks=h, **kw)
    for n in ('emalloc', 'ecalloc', 'erealloc'):
        if en.hooks.get(n) is DEFAULT_HOOKS.get(n): en.hooks.pop(n, None)
    return en
