"""The library of the current tree under analysis.

The compiler is built from /repo's sources in a scratch folder and used as the front end for lib/src/*.c (as clang is for
the compiler itself); the object text it writes is the intermediate representation analysed here.  Functions are
interpreted abstractly: memory has concrete addresses and unknown contents, unknown bytes and numbers are symbols with a
finite set of values, and a branch on them partitions that set (a class).  A reference is evaluated on the same class.
Accesses outside the objects a function was given, its own frame and static data are themselves findings.
Nothing of the library is run."""
import os, re, subprocess, tempfile, shutil, struct, random, itertools
from wasmev import *
from wasmev import bnot
from ir import AnalysisError, REPO
from absint import trunc, zext, sext, mkbits, bits

_objs = {}
USERS = {}          # name: C source of programs to be compiled with the library
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|;;[^\n]*|[()]|[^\s()]+')


def build():
    """object text of every library module, by the compiler of the current tree"""
    if _objs: return _objs
    d = tempfile.mkdtemp(prefix='wcpl-fe-')
    try:
        src = [f for f in sorted(os.listdir(REPO)) if f.endswith('.c')]
        ps = [subprocess.Popen(['clang-18', '-w', '-O1', '-c', '-I', REPO, '-o', os.path.join(d, f + '.o'), os.path.join(REPO, f)], stderr=subprocess.PIPE) for f in src]
        for f, p in zip(src, ps):
            if p.communicate()[1] and p.returncode or p.returncode: raise AnalysisError('%s does not compile' % f)
        if subprocess.run(['clang-18', '-o', d + '/wcpl'] + [os.path.join(d, f + '.o') for f in src] + ['-lm']).returncode: raise AnalysisError('the compiler does not link')
        ls = os.path.join(REPO, 'lib', 'src')
        env = {k: v for k, v in os.environ.items() if not k.startswith('WCPL')}
        ps = {}
        for f in sorted(os.listdir(ls)):
            if f.endswith('.c'):
                o = os.path.join(d, f[:-2] + '.wo')
                ps[f[:-2]] = (o, subprocess.Popen([d + '/wcpl', '-q', '-c', '-I', '../include/', '-o', o, f], cwd=ls, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for m, t in USERS.items():
            if m.endswith('.h'): open(os.path.join(d, m), 'w').write(t)
        for m, t in USERS.items():
            if m.endswith('.h'): continue
            o = os.path.join(d, 'u_' + m + '.wo'); i = os.path.join(d, m + '.c'); open(i, 'w').write(t)
            ps[m] = (o, subprocess.Popen([d + '/wcpl', '-q', '-c', '-I', os.path.join(REPO, 'lib', 'include') + '/', '-I', d + '/', '-o', o, i], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for m, (o, p) in ps.items():
            out = p.communicate()[0]
            if p.returncode: raise AnalysisError('%s.c is not accepted: %s' % (m if m in USERS else 'lib/src/' + m, out.decode('latin-1')[-200:]))
            _objs[m] = open(o, encoding='latin-1').read()
    finally: shutil.rmtree(d, ignore_errors=True)
    return _objs


def unstr(s):
    out = bytearray(); i = 1; n = len(s) - 1
    while i < n:
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            k = {'t': 9, 'n': 10, 'r': 13, '"': 34, "'": 39, '\\': 92}.get(d)
            if k is not None: out.append(k); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out += c.encode('latin-1'); i += 1
    return bytes(out)


class Data:
    def __init__(self, name, const, align, items): self.name = name; self.const = const; self.align = align; self.items = items; self.addr = 0; self.size = 0


class Glob:
    def __init__(self, name, type, mut, init): self.name = name; self.type = type; self.mut = mut; self.init = init


class F:
    __slots__ = ('name', 'params', 'results', 'locals', 'body', 'code', 'ltypes', 'index')


def sexp(toks, i):
    """nested lists from tokens starting at an open parenthesis"""
    out = []; i += 1
    while toks[i] != ')':
        if toks[i] == '(': x, i = sexp(toks, i)
        else: x = toks[i]; i += 1
        out.append(x)
    return out, i + 1


def flat(x): return [t for e in x for t in (['('] + flat(e) + [')'] if isinstance(e, list) else [e])]


class Image:
    """all modules linked: functions by name, data at addresses"""

    def __init__(self, objs):
        self.funcs = {}; self.data = {}; self.globs = {}; self.imports = {}; self.imported = {}
        for m, t in objs.items(): self.module(m, t)
        # addresses
        a = 0x400
        for d in self.data.values():
            n = 0
            for it in d.items: n += it[1] if it[0] == 'size' else len(it[1])
            d.size = n; al = max(1, d.align)
            a = (a + al - 1) // al * al + (16 if al < 16 else 0)
            a = (a + al - 1) // al * al
            d.addr = a; a += n
        self.end = (a + 31) // 16 * 16
        self.fidx = {}; self.table = []
        for n in self.funcs: self.fidx[n] = len(self.table) + 1; self.table.append(n)
        self.init = {}; self.cells = []
        for d in self.data.values():
            o = 0
            for it in d.items:
                if it[0] == 'str':
                    for b in it[1]: self.init[d.addr + o] = b; o += 1
                elif it[0] == 'size':
                    for i in range(it[1]): self.init[d.addr + o + i] = 0
                    o += it[1]
            for o, (k, n) in d.refs: self.cells.append((d.addr + o, k, n))

    def module(self, m, t):
        toks = [x for x in TOK.findall(t) if not x.startswith(';;')]
        tree, _ = sexp(toks, 0)
        imps = self.imported.setdefault(m, [])
        for x in tree:
            if not isinstance(x, list): continue
            if x[0] == 'import':
                mod, nm = unstr(x[1]).decode(), unstr(x[2]).decode()
                imps.append((mod, nm, x[3]))
                if x[3][0] == 'func': self.imports[x[3][1]] = parse_sig(flat(x[3][2:]))
            elif x[0] == 'global':
                ty = None; mut = False; init = 0
                for e in x[2:]:
                    if isinstance(e, list) and e[0] == 'mut': mut = True; ty = e[1]
                    elif isinstance(e, str): ty = e
                    elif isinstance(e, list) and e[0].endswith('.const'): init = e
                    elif isinstance(e, list) and e[0] in ('ref.data', 'ref.func'): init = e
                self.globs[x[1]] = Glob(x[1], ty, mut, init)
            elif x[0] == 'data':
                al = 1; items = []; refs = []; const = 'const' in x
                for e in x[2:]:
                    if isinstance(e, str) and e.startswith('align='): al = int(e[6:])
                    elif isinstance(e, str) and e.startswith('size='): items.append(('size', int(e[5:])))
                    elif isinstance(e, str) and e[0] == '"': items.append(('str', unstr(e)))
                    elif isinstance(e, list) and 'data.put_ref' in e:
                        last = None; j = 0
                        while j < len(e):
                            if e[j] in ('ref.data', 'ref.func'): last = (e[j], e[j + 1]); j += 1
                            elif e[j] == 'data.put_ref': refs.append((int(e[j + 1].split('=')[1], 0), last)); j += 1
                            j += 1
                    elif isinstance(e, list) and e[0].endswith('.const'):
                        w = NB[e[0][:3]]
                        v = int(e[1], 0) & M(w) if e[0][0] == 'i' else fconst(w, pfloat(e[1])).a[0]
                        items.append(('str', v.to_bytes(w // 8, 'little')))
                self.data[x[1]] = Data(x[1], const, al, items); self.data[x[1]].refs = refs
            elif x[0] == 'func':
                f = F(); f.name = x[1]; f.params = []; f.results = []; f.locals = []; body = []; n = 0
                for e in x[2:]:
                    if isinstance(e, list) and e[0] in ('param', 'local', 'result', 'export', 'type') and not body:
                        if e[0] == 'param': f.params.append((e[1], e[2]) if len(e) > 2 else ('$%d' % len(f.params), e[1]))
                        elif e[0] == 'local': f.locals.append((e[1], e[2]))
                        elif e[0] == 'result': f.results += e[1:]
                    elif isinstance(e, list): body += ['('] + flat(e) + [')']
                    else: body.append(e)
                f.body = body; f.code = None; self.funcs[f.name] = f

    def code(self, f):
        if f.code is None: f.code = parse_body(f.body)
        return f.code


def image(crt='args', user=None):
    if (crt, user) not in _img: _img[crt, user] = Image({m: t for m, t in build().items() if (not m.startswith('crt.') or m == 'crt.' + crt) and (m not in USERS or m == user)})
    return _img[crt, user]


_img = {}


# ------------------------------------------------------------------ compiled evaluation of terms
def symsof(v, memo={}):
    """unknowns of a term"""
    if not isinstance(v, E): return ()
    r = memo.get(v.id)
    if r is None:
        if v.op == 'sym': r = (v,)
        else:
            s = {}
            for x in v.a: _syms(x, s)
            r = tuple(sorted(s.values(), key=lambda e: e.id))
        memo[v.id] = r
    return r


def _syms(x, s):
    if isinstance(x, E):
        for y in symsof(x): s[y.id] = y
    elif isinstance(x, tuple):
        for b in x: _syms(b, s)


class NoEval(Exception):
    pass


def sfl(x, w):
    return struct.unpack('<d', struct.pack('<Q', x))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', x))[0]


def pfl(x, w):
    if x != x: return 0x7ff8000000000000 if w == 64 else 0x7fc00000
    if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0]
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000


class Ev:
    """value of a term under a valuation {symbol id: int}"""

    def __init__(self, env): self.env = env; self.m = {}

    def bit(self, b):
        if b in (0, 1): return b
        return self.v(b[0]) >> b[1] & 1

    def v(self, t):
        if isinstance(t, int): return t
        r = self.m.get(t.id)
        if r is None: r = self.m[t.id] = self.ev(t)
        return r

    def ev(self, t):
        op = t.op; w = t.w; a = t.a
        if op == 'sym':
            if t.id not in self.env: raise NoEval(t)
            return self.env[t.id]
        if op == 'bits':
            r = 0; bs = a[0]; i = 0; n = len(bs)
            while i < n:
                b = bs[i]
                if b == 0: i += 1; continue
                if b == 1: r |= 1 << i; i += 1; continue
                j = i + 1
                while j < n and isinstance(bs[j], tuple) and bs[j][0] is b[0] and bs[j][1] == b[1] + j - i: j += 1
                r |= (self.v(b[0]) >> b[1] & (1 << j - i) - 1) << i; i = j
            return r
        if op == 'fconst': return a[0]
        if op == 'not': return 1 - self.bit(a[0])
        if op == 'bite': return self.bit(a[1] if self.bit(a[0]) else a[2])
        if op == 'ite': return self.v(a[1] if self.bit(a[0]) else a[2])
        if op == 'eq': return int(self.v(a[0]) == self.v(a[1]))
        if op == 'ult': return int(self.v(a[0]) < self.v(a[1]))
        if op == 'slt': return int(sx(self.v(a[0]), a[2]) < sx(self.v(a[1]), a[2]))
        if op in ('feq', 'flt', 'fle'):
            x, y = sfl(self.v(a[0]), a[2]), sfl(self.v(a[1]), a[2])
            return int({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            x, y = self.v(a[0]), self.v(a[1])
            return (x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x & y if op == 'and' else x | y if op == 'or' else x ^ y) & M(w)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            x, y = self.v(a[0]), self.v(a[1])
            if y == 0: raise NoEval('division by zero')
            return binop(op, w, x, y)
        if op in ('shl', 'lshr', 'ashr'): return binop(op, w, self.v(a[0]), self.v(a[1]) & (w - 1))
        if op in ('clz', 'ctz', 'popcnt'):
            x = self.v(a[0]); return w - x.bit_length() if op == 'clz' else bin(x).count('1') if op == 'popcnt' else (x & -x).bit_length() - 1 if x else w
        if op == 'tab':
            x = self.v(a[0])
            d = _tabs.get(t.id)
            if d is None: d = _tabs[t.id] = dict(a[1])
            if x not in d: raise NoEval('table')
            return d[x]
        if op == 'sitof': return pfl(float(sx(self.v(a[0]), 64)), w)
        if op == 'uitof': return pfl(float(self.v(a[0])), w)
        if op == 'fbits' or op == 'bitsf': return self.v(a[0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fpext', 'fptrunc', 'fpint', 'ffloor', 'fceil', 'ftrunc', 'fsqrt', 'fnearest', 'fcopysign', 'fmin', 'fmax'):
            return ffold(op, w, [x.w if isinstance(x, E) else w for x in a], [self.v(x) for x in a])
        raise NoEval(op)


_tabs = {}


def ffold(op, w, ws, xs):
    """concrete floating operation on bit patterns"""
    import math
    if op == 'fneg': return xs[0] ^ 1 << w - 1
    if op == 'fabs': return xs[0] & M(w - 1)
    if op == 'fcopysign': return xs[0] & M(w - 1) | xs[1] & 1 << w - 1
    if op == 'fpext': return pfl(sfl(xs[0], 32), 64)
    if op == 'fptrunc': return pfl(sfl(xs[0], 64), 32)
    x = sfl(xs[0], ws[0])
    if op == 'fpint':
        if x != x or abs(x) >= 2.0 ** 64: raise NoEval('float to integer')
        return int(x) & M(w)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fmin', 'fmax'):
        y = sfl(xs[1], ws[1])
        try:
            if op == 'fadd': r = x + y
            elif op == 'fsub': r = x - y
            elif op == 'fmul': r = x * y
            elif op == 'fdiv':
                if y == 0: r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                else: r = x / y
            else: raise NoEval(op)
        except OverflowError: raise NoEval(op)
        return pfl(r, w)
    if op == 'fsqrt': return pfl(math.sqrt(x), w) if x >= 0 else pfl(math.nan, w)
    if abs(x) == math.inf or x != x: return xs[0]
    if op == 'ffloor': return pfl(math.copysign(float(math.floor(x)), x), w)
    if op == 'fceil': return pfl(math.copysign(float(math.ceil(x)), x), w)
    if op == 'ftrunc': return pfl(math.copysign(float(math.trunc(x)), x), w)
    if op == 'fnearest': return pfl(math.copysign(float(round(x)), x), w)
    raise NoEval(op)


# ------------------------------------------------------------------ classes of inputs
class Split(Exception):
    """the value of fn over these terms is not the same in the whole class"""

    def __init__(self, parts): self.parts = parts


class TooMany(Exception):
    pass


class Shape:
    """a tuple of terms up to renaming of their unknowns, compiled to a function of the unknowns"""

    def __init__(self, terms, syms):
        self.syms = [s.w for s in syms]; self.names = {s.id: 's%d' % i for i, s in enumerate(syms)}
        self.lines = []; self.done = {}; self.terms = terms; self.env = {'sx': sx, 'bo': binop, 'dv': _dv}
        try:
            outs = [self.g(t) for t in terms]
            src = 'def f(%s):\n%s return (%s)' % (','.join('s%d' % i for i in range(len(syms))), ''.join(' %s\n' % l for l in self.lines), ''.join(o + ',' for o in outs))
            self.key = (tuple(self.syms), src)
            exec(compile(src, 'term', 'exec'), self.env); self.f = self.env['f']
        except NoEval:
            ids = [s.id for s in syms]; ts = list(terms)
            self.key = (tuple(ids), tuple(t if isinstance(t, int) else ('t', t.id) for t in terms))

            def f(*v):
                e = Ev(dict(zip(ids, v)))
                return tuple(e.v(t) for t in ts)
            self.f = f

    def bit(self, b):
        if b in (0, 1): return str(b)
        x = self.g(b[0])
        return x if b[0].w == 1 else '(%s>>%d&1)' % (x, b[1])

    def g(self, t):
        if isinstance(t, int): return str(t)
        r = self.done.get(t.id)
        if r is None:
            if t.op == 'sym': r = self.names[t.id]
            else:
                e = self.ex(t); r = 't%d' % len(self.lines); self.lines.append('%s=%s' % (r, e))
            self.done[t.id] = r
        return r

    def ex(self, t):
        op = t.op; w = t.w; a = t.a; m = M(w)
        if op == 'bits':
            out = []; bs = a[0]; i = 0; n = len(bs); c = 0
            while i < n:
                b = bs[i]
                if b in (0, 1): c |= b << i; i += 1; continue
                j = i + 1
                while j < n and isinstance(bs[j], tuple) and bs[j][0] is b[0] and bs[j][1] == b[1] + j - i: j += 1
                x = self.g(b[0])
                if b[1]: x = '(%s>>%d)' % (x, b[1])
                if j - i < (b[0].w or 64) - b[1]: x = '(%s&%d)' % (x, M(j - i))
                out.append('(%s<<%d)' % (x, i) if i else x); i = j
            if c: out.append(str(c))
            return '|'.join(out) or '0'
        if op == 'not': return '1-' + self.bit(a[0])
        if op == 'bite': return '%s if %s else %s' % (self.bit(a[1]), self.bit(a[0]), self.bit(a[2]))
        if op == 'ite': return '%s if %s else %s' % (self.g(a[1]), self.bit(a[0]), self.g(a[2]))
        if op == 'eq': return 'int(%s==%s)' % (self.g(a[0]), self.g(a[1]))
        if op == 'ult': return 'int(%s<%s)' % (self.g(a[0]), self.g(a[1]))
        if op == 'slt': return 'int(sx(%s,%d)<sx(%s,%d))' % (self.g(a[0]), a[2], self.g(a[1]), a[2])
        if op in ('add', 'sub', 'mul'): return '%s%s%s&%d' % (self.g(a[0]), {'add': '+', 'sub': '-', 'mul': '*'}[op], self.g(a[1]), m)
        if op in ('and', 'or', 'xor'): return '%s%s%s' % (self.g(a[0]), {'and': '&', 'or': '|', 'xor': '^'}[op], self.g(a[1]))
        if op in ('udiv', 'urem') and isinstance(a[1], int) and a[1]: return '%s%s%d' % (self.g(a[0]), '//' if op == 'udiv' else '%', a[1])
        if op in ('sdiv', 'udiv', 'srem', 'urem'): return 'dv(%r,%d,%s,%s)' % (op, w, self.g(a[0]), self.g(a[1]))
        if op in ('shl', 'lshr', 'ashr'):
            c = self.g(a[1]) + '&%d' % (w - 1)
            return '(%s<<(%s))&%d' % (self.g(a[0]), c, m) if op == 'shl' else '%s>>(%s)' % (self.g(a[0]), c) if op == 'lshr' else 'bo("ashr",%d,%s,%s)' % (w, self.g(a[0]), c)
        if op == 'tab':
            d = dict(a[1]); n = 'd%d' % len(self.env); self.env[n] = d
            self.lines.append('"""%r"""' % (a[1],))     # part of the key
            return '%s[%s]' % (n, self.g(a[0]))
        if op == 'clz': return '%d-(%s).bit_length()' % (w, self.g(a[0]))
        raise NoEval(op)


def _dv(op, w, x, y):
    if y == 0: raise NoEval('division by zero')
    return binop(op, w, x, y)


_shapes = {}; _tables = {}; _fns = {}; _spread = {}


def shape(terms):
    k = tuple(t if isinstance(t, int) else ('t', t.id) for t in terms)
    r = _shapes.get(k)
    if r is None:
        syms = {}
        for t in terms:
            for s in symsof(t): syms[s.id] = s
        syms = sorted(syms.values(), key=lambda s: s.id)
        r = _shapes[k] = (Shape(terms, syms), tuple(s.id for s in syms), syms)
    return r


def fnkey(fn):
    c = fn.__closure__
    try:
        k = (fn.__code__, fn.__defaults__, tuple(x.cell_contents for x in c) if c else ())
        hash(k)
        return k
    except (TypeError, ValueError): return None


def table(sh, fn, doms):
    """{value of fn: mask of the valuations that give it}, over all valuations of at most 18 bits"""
    k = fnkey(fn); k = (sh.key, k) if k is not None else None
    if k is not None and k in _tables: return _tables[k]
    ws = sh.syms; f = sh.f; n = 1 << sum(ws); parts = {}
    if len(ws) == 1: it = enumerate((i,) for i in range(1 << ws[0]))
    else:
        # few pairs are possible here: only those
        ca, cb = bin(doms[0]).count('1'), bin(doms[1]).count('1')
        if ca * cb * 8 <= n:
            if k is not None:
                k += doms
                if k in _tables: return _tables[k]
            w2 = ws[1]; mb = members(doms[1])
            it = ((a << w2 | b, (a, b)) for a in members(doms[0]) for b in mb)
        else: it = enumerate(itertools.product(*[range(1 << w) for w in ws]))
    for i, tup in it:
        try: v = fn(*f(*tup))
        except (NoEval, KeyError, ZeroDivisionError, ValueError, IndexError, OverflowError, TypeError) as e: v = ('undefined', str(e))
        b = parts.get(v)
        if b is None: b = parts[v] = bytearray((n + 7) // 8)
        b[i >> 3] |= 1 << (i & 7)
    r = {v: int.from_bytes(b, 'little') for v, b in parts.items()}
    if k is not None: _tables[k] = r
    return r


def spread(mask, n1, n2):
    """bit a of the mask at bit a * n2"""
    k = (mask, n1, n2); r = _spread.get(k)
    if r is None:
        b = bytearray((n1 * n2 + 7) // 8)
        for a in range(n1):
            if mask >> a & 1: b[a * n2 >> 3] |= 1 << (a * n2 & 7)
        r = _spread[k] = int.from_bytes(b, 'little')
    return r


def members(mask):
    out = []; i = 0
    while mask:
        k = (mask & -mask).bit_length() - 1
        out.append(i + k); mask >>= k + 1; i += k + 1
    return out


def fewer(b):
    """a comparison with a multiple of 2^k does not depend on the k lowest bits"""
    t = b[0]
    if t.op in ('ult', 'slt'):
        x, y = t.a[:2]; n = t.a[2] if len(t.a) > 2 else None; inv = False
        if isinstance(x, int) and isinstance(y, E): x, y, inv = y, x + 1, True      # c < x
        if isinstance(x, E) and x.op == 'bits' and isinstance(y, int) and y and not y & 1:
            bs = x.a[0]; w = len(bs)
            if t.op == 'slt' and (bs[-1] != 0 or y >> w - 1): return b
            k = (y & -y).bit_length() - 1
            r = ult(w, mkbits(tuple(bs[k:]) + (0,) * k), y >> k)
            return bnot(r) if inv else r
    return b


def ult(w, x, y):
    return cmpbit('ult', w, x, y)


class Class:
    """a set of valuations: the allowed values of every unknown, the allowed pairs of some, allowed tuples of few"""
    LIMIT = 70000

    def __init__(self, dom=None, rels=None, ext=None, ws=None): self.dom = dict(dom or {}); self.rels = dict(rels or {}); self.ext = list(ext or ()); self.ws = ws if ws is not None else {}; self.memo = {}

    def add(self, s, values):
        self.ws[s.id] = s.w
        if s.id not in self.dom: self.dom[s.id] = M(1 << s.w) if values is None else sum(1 << v for v in values)

    def allowed(self, ids):
        """mask over the valuations of one or two unknowns"""
        if len(ids) == 1: return self.dom[ids[0]]
        a, b = ids; n1, n2 = 1 << self.ws[a], 1 << self.ws[b]
        m = spread(self.dom[a], n1, n2) * self.dom[b]
        r = self.rels.get(ids)
        return m & r if r is not None else m

    def space(self, ids):
        ds = []; n = 1
        for s in ids: d = members(self.dom[s]); ds.append(d); n *= len(d)
        if n > self.LIMIT: raise TooMany(n)
        rs = []
        for (a, b), m in self.rels.items():
            if a in ids and b in ids: rs.append((ids.index(a), ids.index(b), 1 << self.ws[b], m))
        es = [(tuple(ids.index(i) for i in ri), al) for ri, al in self.ext if all(i in ids for i in ri)]
        for t in itertools.product(*ds):
            if all(m >> (t[i] * k + t[j]) & 1 for i, j, k, m in rs) and all(tuple(t[i] for i in ix) in al for ix, al in es): yield t

    def case(self, fn, *terms):
        """fn of the terms' values if it is constant in the class; otherwise the class is partitioned"""
        if all(isinstance(t, int) for t in terms): return fn(*terms)
        sh, ids, syms = shape(terms)
        for i in ids:
            if i not in self.dom: raise NoEval(syms[ids.index(i)])
        if len(ids) <= 2 and sum(sh.syms) <= 18:
            if not ids: return fn(*sh.f())
            al = self.allowed(ids)
            parts = {v: m & al for v, m in table(sh, fn, tuple(self.dom[i] for i in ids)).items() if m & al}
        else:
            parts = {}
            for tup in self.space(ids):
                try: k = fn(*sh.f(*tup))
                except (NoEval, KeyError, ZeroDivisionError, ValueError, IndexError, OverflowError, TypeError) as x: k = ('undefined', str(x))
                parts.setdefault(k, []).append(tup)
        if not parts: raise Void()
        if len(parts) == 1:
            k = next(iter(parts))
            if isinstance(k, tuple) and k and k[0] == 'undefined': raise Stuck(k[1])
            return k
        raise Split([self.refined(ids, p) for p in parts.values()])

    def refined(self, ids, p):
        c = Class(self.dom, self.rels, self.ext, self.ws)
        if len(ids) == 1: c.dom[ids[0]] = p if isinstance(p, int) else sum(1 << t[0] for t in p)
        elif isinstance(p, int): c.rels[ids] = p; c.narrow(ids)
        else:
            for i, s in enumerate(ids): c.dom[s] = sum(1 << v for v in {t[i] for t in p})
            c.ext.append((ids, frozenset(p)))
        ch = set(ids)
        for ab in c.rels:
            if ab[0] in ch or ab[1] in ch: c.narrow(ab)
        return c

    def narrow(self, ab):
        a, b = ab; n1, n2 = 1 << self.ws[a], 1 << self.ws[b]
        m = self.rels[ab] & spread(self.dom[a], n1, n2) * self.dom[b]
        da = db = 0; x = m; full = M(n2)
        by = m.to_bytes((n1 * n2 + 7) // 8, 'little')
        if n2 % 8 == 0:
            k = n2 // 8
            for i in range(n1):
                row = int.from_bytes(by[i * k:i * k + k], 'little')
                if row: da |= 1 << i; db |= row
        else:
            for i in range(n1):
                row = m >> i * n2 & full
                if row: da |= 1 << i; db |= row
        self.dom[a] = da; self.dom[b] = db
        # rows times columns: the pair says no more than the two
        if m == spread(da, n1, n2) * db: self.rels = {k: v for k, v in self.rels.items() if k != ab}
        else: self.rels = dict(self.rels); self.rels[ab] = m

    def bit(self, b):
        if b in (0, 1): return b
        b = fewer(b)
        if b in (0, 1): return b
        r = self.memo.get(b)
        if r is None:
            try: r = self.case(_id, mkbits((b,)))
            except TooMany:
                r = self.bytewise(b)
                if r is None: raise
            self.memo[b] = r
        return r

    def bytewise(self, b):
        """a comparison of many unknowns, decided byte by byte"""
        e, i = b; inv = 0
        while isinstance(e, E) and e.op == 'not' and i == 0 and e.w == 1: inv ^= 1; e, i = bits(e.a[0], 1)[0] if not isinstance(e.a[0], tuple) else e.a[0]
        if not isinstance(e, E) or e.op not in ('eq', 'ult', 'slt') or i: return None
        x, y, n = e.a[:3]; x = bits(x, n); y = bits(y, n); first = True
        if n <= 8: return None
        hi = n
        while hi:
            lo = (hi - 1) // 8 * 8; p, q, k = mkbits(x[lo:hi]), mkbits(y[lo:hi]), hi - lo
            if e.op != 'eq' and self.bit(cmpbit('slt' if first and e.op == 'slt' else 'ult', k, p, q)): return 1 ^ inv
            if not self.bit(cmpbit('eq', k, p, q)): return inv
            hi = lo; first = False
        return int(e.op == 'eq') ^ inv

    def values(self, t):
        """possible values of a term"""
        if isinstance(t, int): return {t}
        sh, ids, syms = shape((t,))
        for i in ids:
            if i not in self.dom: raise NoEval(syms[ids.index(i)])
        if len(ids) <= 2 and sum(sh.syms) <= 18:
            al = self.allowed(ids)
            return {v for v, m in table(sh, _id, tuple(self.dom[i] for i in ids)).items() if m & al}
        return {sh.f(*tup)[0] for tup in self.space(ids)}

    def conc(self, t):
        """the value of a term, partitioning the class if there are several"""
        if isinstance(t, int): return t
        return self.case(_id, t)

    def some(self):
        """a valuation in the class, None if there is none"""
        if any(not d for d in self.dom.values()): return None
        steps = [0]; by = {}
        for (a, b), m in self.rels.items():
            by.setdefault(a, []).append((a, b, m)); by.setdefault(b, []).append((a, b, m))
        cnt = lambda m: bin(m).count('1')
        tight = {}
        for ab, m in self.rels.items():
            for i in ab: tight[i] = min(tight.get(i, 1 << 30), cnt(m))

        def go(env, dom):
            steps[0] += 1
            if steps[0] > 20000: raise Stuck('no valuation found')
            rest = [i for i in dom if i not in env]
            if not rest: return env
            s = min(rest, key=lambda i: (cnt(dom[i]), tight.get(i, 1 << 30)))
            for v in members(dom[s]):
                e = dict(env); e[s] = v; d = dict(dom); ok = True
                for a, b, m in by.get(s, ()):
                    n2 = 1 << self.ws[b]
                    if a == s:
                        if b not in e: d[b] &= m >> v * n2 & M(n2); ok = ok and d[b]
                        else: ok = ok and m >> v * n2 + e[b] & 1
                    elif a in e: ok = ok and m >> e[a] * n2 + v & 1
                    else:
                        col = 0
                        for i in members(d[a]):
                            if m >> i * n2 + v & 1: col |= 1 << i
                        d[a] = col; ok = ok and col
                    if not ok: break
                if not ok or not all(tuple(e[i] for i in ri) in al for ri, al in self.ext if s in ri and all(i in e for i in ri)): continue
                r = go(e, d)
                if r is not None: return r
            return None
        # independent groups of unknowns
        par = {i: i for i in self.dom}

        def root(i):
            while par[i] != i: i = par[i]
            return i
        for ids in list(self.rels) + [ri for ri, _ in self.ext]:
            for i in ids[1:]: par[root(i)] = root(ids[0])
        groups = {}
        for i in self.dom: groups.setdefault(root(i), []).append(i)
        env = {}
        for g in sorted(groups.values(), key=len):
            e = go({}, {i: self.dom[i] for i in g})
            if e is None: return None
            env.update(e)
        return env


def _id(x): return x


class Void(Exception):
    """no valuation is left"""


class Trap(Exception):
    """the code traps"""


class Exit(Exception):
    """proc_exit"""
    def __init__(self, code): self.code = code


class Fault(Exception):
    """an access outside the objects"""


# ------------------------------------------------------------------ interpretation
STK = 0x80000        # initial stack pointer
STKSZ = 0x10000
HEAP = 0x100000


class Bytes(dict):
    mem = None

    def __missing__(self, a):
        # read on behalf of the code, past everything there is
        if not isinstance(a, int) or STK - STKSZ <= a < STK or HEAP <= a < self.mem.pages * 65536: raise KeyError(a)
        raise Fault('a byte is looked at that is at %s' % self.mem.run.where(a))


class LMem:
    def __init__(self, img):
        self.b = Bytes(img.init); self.b.mem = self; self.img = img; self.cells = {}; self.freed = {}
        self.pages = HEAP // 65536
        for a, k, x in img.cells: self.write(a, 4, img.data[x].addr if k == 'ref.data' else img.fidx.get(x, 0))

    def alloc(self, addr, contents, ro=False):
        for i, c in enumerate(contents): self.b[addr + i] = c
        return addr

    def write(self, a, n, v):
        """v: int or term of n*8 bits"""
        b = self.b
        if isinstance(v, int):
            for i in range(n): b[a + i] = v >> 8 * i & 255
        elif v is None:
            for i in range(n): b[a + i] = 0
        else:
            for i in range(n): b[a + i] = (v, i, n)

    def read(self, a, n):
        b = self.b; c = b[a]
        if n == 1 and not isinstance(c, tuple): return c
        if isinstance(c, tuple) and c[1] == 0 and c[2] == n:
            v = c[0]
            if all(b[a + i] == (v, i, n) for i in range(1, n)): return v
        r = 0; ok = True
        for i in range(n):
            x = b[a + i]
            if isinstance(x, int): r |= x << 8 * i
            else: ok = False; break
        if ok: return r
        bs = ()
        for i in range(n):
            x = b[a + i]
            if isinstance(x, int): bs += bits(x, 8)
            elif isinstance(x, tuple): bs += bits(x[0], x[2] * 8)[x[1] * 8:x[1] * 8 + 8]
            else: bs += bits(x, 8)
        return mkbits(bs)

    def byte(self, a): return self.read(a, 1)


class Watched:
    """the body of a loop; an iteration that begins in a state the loop has been in before, with nothing read
    from outside between, means that it never ends"""
    __slots__ = ('run', 'code', 'n', 'next', 'old')

    def __init__(self, run, code): self.run = run; self.code = code; self.n = 0; self.next = 512; self.old = None

    def __iter__(self):
        self.n += 1
        if self.n >= 512: self.watch()
        return iter(self.code)

    def watch(self):
        r = self.run; o = self.old
        if o and o[0] == r.outside and o[1] == r.loc and o[2] == r.glob and o[3] == r.mem.b: raise Fault('%s loops forever' % r.f.name)
        if self.n >= self.next: self.old = (r.outside, dict(r.loc), dict(r.glob), dict(r.mem.b)); self.next *= 2


class LRun(WasmRun):
    """interpretation of a library function on one class of inputs"""
    MAXSTEPS = 3000000; DEPTH = 60

    def __init__(self, cls, img=None, hooks=None):
        self.img = img or image(); self.c = cls; self.mem = LMem(self.img); self.mem.run = self; self.o = self
        self.stack = []; self.glob = {'$crt:sp$': STK}; self.truncs = []; self.log = []; self.steps = 0; self.hooks = hooks or {}; self.depthn = 0; self.outside = 0
        self.maxloop = 1 << 30; self.calls = []; self.sigs = {}; self.low = STK; self.uninit = set()
        for n, g in self.img.globs.items():
            if n == '$crt:sp$': continue
            self.glob[n] = self.ginit(g.init, g.type) if g.mut else self.ginit(g.init, g.type)
        self.glob['$crt:heap_base'] = HEAP; self.glob['$crt:stack_base'] = STK

    def ginit(self, i, t):
        if not isinstance(i, list): return 0 if not t or t[0] == 'i' else mk('fconst', NB[t], 0)
        if i[0].endswith('.const'): return int(i[1], 0) & M(NB[t]) if t[0] == 'i' else fconst(NB[t], pfloat(i[1]))
        if i[0] == 'ref.data': return self.img.data[i[1]].addr + (int(i[2], 0) if len(i) > 2 else 0)
        if i[0] == 'ref.func': return self.img.fidx.get(i[1], 0)
        return 0

    # decisions
    def decide(self, b): return bool(self.c.bit(b))

    def addr(self, a, n, w):
        if not isinstance(a, int): a = self.c.conc(a)
        if a < 64: raise Fault('%s of %d bytes at address %d' % ('store' if w else 'load', n, a))
        b = self.mem.b
        for i in range(n):
            if a + i not in b:
                x = a + i
                if STK - STKSZ <= x < STK and x >= self.glob['$crt:sp$'] - 0 and isinstance(self.glob['$crt:sp$'], int): 
                    g = b[x] = sym('stk%x' % x, 8); self.c.add(g, (0, 0xAA)); continue
                if HEAP <= x < self.mem.pages * 65536: b[x] = 0; continue
                raise Fault('%s of %d bytes at %s' % ('store' if w else 'load', n, self.where(x)))
        return a

    def where(self, x):
        best = None
        for a in self.mem.b:
            if a < x and (best is None or a > best): best = a
        if best is not None and x - best < 64:
            s = best
            while s - 1 in self.mem.b: s -= 1
            return 'offset %d past an object of %d bytes' % (x - best - 1, best - s + 1)
        return 'an address outside every object (%#x)' % x

    def call(self, name, *args):
        """results of a call"""
        f = self.img.funcs.get(name)
        if f is None: raise Stuck('no function %s' % name)
        n = len(self.stack)
        self.docall(name, list(args), f.results)
        r = [v for v, _ in self.stack[n:]]; del self.stack[n:]
        return r[0] if len(r) == 1 else r

    def docall(self, fn, av, rs):
        if not isinstance(fn, str):
            fn = self.c.conc(fn)
            if not 1 <= fn <= len(self.img.table): 
                h = self.hooks.get(fn)
                if h is None: raise Trap('indirect call of %d' % fn)
                self.outside += 1
                v = h(self, *av)
                for t in rs[:1]: self.push(v, t)
                return
            fn = self.img.table[fn - 1]
        h = self.hooks.get(fn)
        if h is not None:
            self.outside += 1
            v = h(self, *av)
            for t in rs[:1]: self.push(v, t)
            return
        f = self.img.funcs.get(fn)
        if f is None: raise Stuck('call of unknown function %s' % fn)
        if self.depthn >= self.DEPTH: raise Stuck('call depth')
        if len(av) != len(f.params): raise Stuck('%s is called with %d arguments' % (fn, len(av)))
        save = (self.loc, self.types, self.f, self.stack) if self.depthn else (None, None, None, self.stack)
        self.depthn += 1
        self.loc = {}; self.types = {}; self.f = f; self.stack = []
        for (n, t), v in zip(f.params, av): self.loc[n] = v; self.types[n] = t
        for n, t in f.locals: self.loc[n] = 0 if t[0] == 'i' else mk('fconst', NB[t], 0) if t[0] == 'f' else mk('v0', 128); self.types[n] = t
        sp = self.glob['$crt:sp$']
        try: self.seq(self.img.code(f), [None])
        except Return: pass
        except Branch: pass
        out = []
        for t in reversed(f.results): out.append((self.popv(t), t))
        if self.glob['$crt:sp$'] != sp: raise Fault('%s does not restore the stack pointer' % fn)
        self.depthn -= 1
        self.loc, self.types, self.f, self.stack = save
        self.stack += out[::-1]

    def sig(self, name):
        f = self.img.funcs.get(name)
        if f is not None: return [t for _, t in f.params], f.results
        if name in self.img.imports: return self.img.imports[name]
        raise Stuck('unknown function %s' % name)

    def gtype(self, n):
        g = self.img.globs.get(n)
        return g.type if g else 'i32'

    def pure_if(self, *a): return None

    def block(self, kind, lab, bt, code, labels):
        if kind == 'loop': code = Watched(self, code)
        WasmRun.block(self, kind, lab, bt, code, labels)

    def ins(self, ins, labels):
        op, args, a, b = ins
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Stuck('step bound')
        st = self.stack
        if op == 'local.get': st.append((self.loc[args[0]], self.types[args[0]])); return
        if op == 'local.set': self.loc[args[0]] = self.popv(self.types[args[0]]); return
        if op == 'i32.const': st.append((int(args[0], 0) & 0xffffffff, 'i32')); return
        if op == 'call':
            ps, rs = self.sig(args[0])
            av = [self.popv(t) for t in reversed(ps)][::-1]
            self.docall(args[0], av, rs); return
        if op == 'call_indirect':
            ps, rs = parse_sig(args); fn = self.popv('i32')
            av = [self.popv(t) for t in reversed(ps)][::-1]
            self.docall(fn, av, rs); return
        if op == 'global.get': st.append((self.glob[args[0]] if args[0] in self.glob else self.gl(args[0]), self.gtype(args[0]))); return
        if op == 'global.set': self.glob[args[0]] = self.popv(self.gtype(args[0])); return
        if op == 'ref.data':
            st.append((self.ref(args), 'i32')); return
        if op == 'ref.func':
            if args[0] not in self.img.fidx: raise Stuck('address of %s' % args[0])
            st.append((self.img.fidx[args[0]], 'i32')); return
        if op in LOADS or op in STORES:
            off = 0
            for x in args:
                if x.startswith('offset='): off = int(x[7:], 0)
            t = op[:3] if op[0] != 'v' else 'v128'
            if op in LOADS:
                n, w, sg = LOADS[op]; ad = self.popv('i32')
                ad = ad + off if isinstance(ad, int) else binop('add', 32, ad, off)
                if not isinstance(ad, int):
                    v = self.tabload(ad, n)
                    if v is None: ad = self.c.conc(ad)
                if isinstance(ad, int): ad = self.addr(ad, n, False); v = self.mem.read(ad, n)
                if t[0] == 'i' and n * 8 < w: v = (sext if sg else zext)(v, n * 8, w)
                if t[0] == 'f':
                    if isinstance(v, int): v = mk('fconst', w, v)
                    elif v.op == 'fbits': v = v.a[0]
                    elif not isfloat(v): v = mk('bitsf', w, v)
                elif t[0] == 'i' and isinstance(v, E) and isfloat(v): v = mk('fbits', v.w, v) if v.op != 'fconst' else v.a[0]
                st.append((v, t))
            else:
                n = STORES[op]; v = self.popv(t); ad = self.popv('i32')
                ad = ad + off if isinstance(ad, int) else self.c.conc(binop('add', 32, ad, off))
                ad = self.addr(ad, n, True)
                if t[0] == 'i' and n * 8 < NB[t]: v = trunc(v, NB[t], n * 8)
                if isinstance(v, E) and v.op == 'fconst': v = v.a[0]
                self.mem.write(ad, n, v)
            return
        if op == 'memory.copy':
            n = self.c.conc(self.popv('i32')); s = self.c.conc(self.popv('i32')); d = self.c.conc(self.popv('i32'))
            self.copy(d, s, n); return
        if op == 'memory.fill':
            n = self.c.conc(self.popv('i32')); v = trunc(self.popv('i32'), 32, 8); d = self.c.conc(self.popv('i32'))
            for i in range(n): self.addr(d + i, 1, True)
            for i in range(n): self.mem.write(d + i, 1, v)
            return
        if op == 'memory.size': st.append((self.mem.pages, 'i32')); return
        if op == 'memory.grow':
            n = self.c.conc(self.popv('i32')); h = self.hooks.get('memory.grow'); self.outside += 1
            if h and not h(self, n) or self.mem.pages + n > 65536: st.append((M(32), 'i32')); return
            st.append((self.mem.pages, 'i32')); self.mem.pages += n; return
        if op == 'unreachable': raise Trap('unreachable')
        if op == 'select':
            c = cmpbit('ne', 32, self.popv('i32'), 0)
            (y, t2), (x, t1) = self.pop(), self.pop()
            if t1 != t2: raise Stuck('select of %s and %s' % (t1, t2))
            self.push(ite(c, NB[t1], x, y), t1); return
        if op == 'if':
            v = self.popv('i32')
            self.block('block', args[0], args[1], a if (v if isinstance(v, int) else self.c.bit(cmpbit('ne', 32, v, 0))) else b, labels); return
        if op == 'br_table':
            v = self.c.conc(self.popv('i32'))
            raise Branch(self.depth(args[v] if v < len(args) - 1 else args[-1], labels))
        WasmRun.ins(self, ins, labels)

    def ref(self, args):
        d = self.img.data.get(args[0])
        if d is None: raise Stuck('address of unknown data %s' % args[0])
        return d.addr + (int(args[1], 0) if len(args) > 1 else 0) & M(32)

    def gl(self, n):
        d = self.img.data.get(n)
        if d is None: raise Stuck('unknown global %s' % n)
        return d.addr

    def copy(self, d, s, n):
        if n > 1 << 20: raise Fault('copy of %d bytes' % n)
        for i in range(n): self.addr(s + i, 1, False); self.addr(d + i, 1, True)
        v = [self.mem.byte(s + i) for i in range(n)]
        raw = [self.mem.b[s + i] for i in range(n)]
        for i in range(n): self.mem.b[d + i] = raw[i]

    def tabload(self, ad, n):
        """load of constants through an index with few values"""
        if len(symsof(ad)) != 1: return None
        try: vs = self.c.values(ad)
        except (NoEval, TooMany): return None
        if len(vs) > 512: return None
        tab = []
        for x in sorted(vs):
            if any(x + i not in self.mem.b for i in range(n)): return None
            y = self.mem.read(x, n)
            if not isinstance(y, int): return None
            tab.append((x, y))
        if len({y for _, y in tab}) == 1: return tab[0][1]
        return mk('tab', n * 8, ad, tuple(tab))

    def known(self, t, w):
        """the term with the bits that are the same in the whole class replaced"""
        out = []
        for b in bits(t, w):
            if b not in (0, 1) and len(symsof(b[0])) == 1:
                try: vs = self.c.values(mkbits((b,)))
                except (NoEval, TooMany): vs = ()
                if len(vs) == 1: b = next(iter(vs))
            out.append(b)
        return mkbits(tuple(out))

    def num(self, t, o, op):
        st = self.stack; w = NB.get(t, 0)
        if t[0] == 'i' and o in ('clz', 'ctz', 'popcnt') and isinstance(st[-1][0], int):
            x = self.popv(t); self.push(w - x.bit_length() if o == 'clz' else bin(x).count('1') if o == 'popcnt' else (x & -x).bit_length() - 1 if x else w, t); return
        if t[0] == 'i' and o in ('div_s', 'div_u', 'rem_s', 'rem_u'):
            y = self.popv(t); x = self.popv(t)
            if not isinstance(y, int) and self.c.case(lambda q: q == 0, y) or y == 0: raise Trap('division by zero')
            if o == 'div_s' and y == M(w) and self.c.case(lambda q: q == 1 << w - 1, x): raise Trap('integer overflow in division')
            if o == 'div_s' and not isinstance(y, int) and self.c.case(lambda p, q: p == 1 << w - 1 and q == M(w), x, y): raise Trap('integer overflow in division')
            if o == 'rem_s' and y == M(w): self.push(0, t); return
            self.push(idiv(o[-1] + o[:3], w, x, y), t); return
        if o == 'or' and len(st) > 1:
            (y, ty), (x, tx) = st[-1], st[-2]
            if isinstance(x, E) and isinstance(y, E) and any(p not in (0, 1) and q not in (0, 1) for p, q in zip(bits(x, w), bits(y, w))):
                st[-1] = (self.known(y, w), ty); st[-2] = (self.known(x, w), tx)
        n = len(st)
        if t[0] == 'f' or o.startswith('trunc') or o.startswith('reinterpret'):
            if o.startswith('trunc_') and not o.startswith('trunc_sat'):
                src = 'f64' if 'f64' in o else 'f32'; v = self.popv(src); u = o.endswith('_u'); fw = NB[src]
                lo, hi = (-1.0, 2.0 ** w) if u else (-2.0 ** (w - 1) - 1 if w == 32 else -2.0 ** 63, 2.0 ** (w - 1))
                if v.op == 'fconst':
                    x = sfl(v.a[0], fw)
                    if x != x or not (lo < x < hi or w == 64 and not u and x == lo): raise Trap('conversion of %r to an integer' % x)
                    self.push(int(x) & M(w), t); return
                self.push(fptoint(v, w), t); return
            if o.startswith('trunc_sat'):
                src = 'f64' if 'f64' in o else 'f32'; v = self.popv(src); u = o.endswith('_u'); fw = NB[src]
                if v.op != 'fconst': raise Stuck(op)
                x = sfl(v.a[0], fw); lo, hi = (0, M(w)) if u else (-(1 << w - 1), M(w - 1))
                self.push((0 if x != x else lo if x < lo else hi if x > hi else int(x)) & M(w), t); return
            if o.startswith('reinterpret'):
                v = self.popv(('f' if t[0] == 'i' else 'i') + t[1:])
                if t[0] == 'i': v = v.a[0] if v.op in ('fconst', 'bitsf') else mk('fbits', w, v)
                else: v = mk('fconst', w, v) if isinstance(v, int) else v.a[0] if v.op == 'fbits' else mk('bitsf', w, v)
                self.push(v, t); return
        WasmRun.num(self, t, o, op)
        v, vt = st[-1]
        # fold floating operations on constants
        if isinstance(v, E) and v.w in (32, 64) and v.op[0] == 'f' and v.op not in ('fconst', 'fbits') and all(isinstance(x, E) and x.op == 'fconst' for x in v.a):
            try: st[-1] = (mk('fconst', v.w, ffold(v.op, v.w, [x.w for x in v.a], [x.a[0] for x in v.a])), vt)
            except NoEval: pass
        elif isinstance(v, E) and v.op == 'bits' and len(v.a[0]) == 32 and isinstance(v.a[0][0], tuple) and all(q == 0 for q in v.a[0][1:]):
            b = v.a[0][0]; inv = False
            while b[0].op == 'not': b = b[0].a[0]; inv = not inv
            if b[0].op in ('feq', 'flt', 'fle') and all(isinstance(x, E) and x.op == 'fconst' for x in b[0].a[:2]):
                st[-1] = (Ev({}).v(b[0]) ^ inv, vt)


def isfloat(v): return v.op in ('fconst', 'sitof', 'uitof', 'fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'fmin', 'fmax', 'fabs', 'fceil', 'ffloor', 'ftrunc', 'fnearest', 'fsqrt', 'fcopysign', 'bitsf')


# ------------------------------------------------------------------ driving
class Bad(Exception):
    def __init__(self, what, exp=None, got=None): self.what = what; self.exp = exp; self.got = got


class Ctx:
    """what a scenario sees: fresh unknowns, objects, calls of the library, and expectations"""

    def __init__(self, cls, hooks): self.c = cls; self.r = LRun(cls, hooks=hooks); self.top = 0xa0000; self.names = {}

    def use(self, crt, user=None):
        """another start-up module, or a user program"""
        self.r = LRun(self.c, image(crt, user), self.r.hooks)

    def sym(self, name, w=8, values=None):
        s = sym('%s~%d' % (name, w), w)
        if w > 16: raise Stuck('symbol too wide')
        self.names[s.id] = name
        self.c.add(s, values)
        return s

    def obj(self, contents, align=16):
        """an object with given contents; nothing next to it may be touched"""
        a = (self.top + align - 1) // align * align; self.top = a + len(contents) + 48
        if self.top >= HEAP: raise Stuck('too many objects')
        self.r.mem.alloc(a, contents)
        return a

    def words(self, vals):
        a = self.obj([0] * 4 * len(vals))
        for i, v in enumerate(vals): self.r.mem.write(a + 4 * i, 4, v)
        return a

    def cstr(self, s): return self.obj(list(s.encode('latin-1') if isinstance(s, str) else s) + [0])

    def call(self, fn, *args): return self.r.call('$' + fn, *[a & M(32) if isinstance(a, int) and -1 << 31 <= a < 0 else a for a in args])

    def read(self, a, n): return self.r.mem.read(a, n)

    def case(self, fn, *terms): return self.c.case(fn, *terms)

    def conc(self, t): return self.c.conc(t)

    def expect(self, what, got, exp, w=32):
        """equal in the whole class"""
        m = M(w)
        if isinstance(exp, int): exp &= m
        if got is exp or isinstance(got, int) and got == exp: return
        if self.case(lambda x, y: (x ^ y) & m == 0, got, exp): return
        e = self.c.some()
        if e is None: raise Void()
        ev = Ev(e)
        raise Bad('%s%s' % (what, self.given(e)), sx(ev.v(exp), w), sx(ev.v(got), w))

    def test(self, what, fn, *terms):
        if self.case(lambda *a: bool(fn(*a)), *terms): return
        e = self.c.some()
        if e is None: raise Void()
        ev = Ev(e)
        raise Bad('%s%s' % (what, self.given(e)), None, [ev.v(t) for t in terms])

    def given(self, e):
        l = ['%s=%d' % (self.names.get(i, i), v) for i, v in sorted(e.items()) if i in self.names]
        return ' for ' + ', '.join(l[:10]) if l else ''


def explore(scenario, hooks=None, maxclasses=4000):
    """run a scenario on a partition of its unknowns; returns the number of classes; Bad, Stuck"""
    work = [None]; n = 0
    while work:
        st = work.pop()
        cls = st or Class()
        x = None
        try:
            n += 1
            if n > maxclasses: raise Stuck('more than %d classes' % maxclasses)
            x = Ctx(cls, dict(hooks or {}))
            scenario(x)
        except Split as s:
            n -= 1
            work += s.parts[::-1]
        except Void: continue
        except (Trap, Fault, Exit) as f:
            e = cls.some()
            if e is None: continue
            k = 'traps: ' if isinstance(f, Trap) else 'exits: %s' % f.code if isinstance(f, Exit) else ''
            raise Bad('%s%s%s' % (k, f, x.given(e) if x else ''))
    return n


def judge(c, rule, key, scenario, where='', hooks=None, maxclasses=4000):
    """one obligation: the scenario's expectations hold in every class"""
    try:
        n = explore(scenario, hooks, maxclasses)
        c.ob(rule, key, True)
        return n
    except Bad as b: c.ob(rule, key, False, b.what, where, b.exp, b.got)
    except (Stuck, TooMany, NoEval, Need, KeyError) as e: c.undecided(rule, key, '%s %s' % (type(e).__name__, e))
