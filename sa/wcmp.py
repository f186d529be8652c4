"""Comparison of emitted code with reference semantics on a partition of the inputs.

The two sides meet if, in every class of the partition, they produce the same effects in the same order with the same
terms.  Terms that differ are split on the unknown conditions inside them; a difference that remains is reported only
with a valuation of the unknowns, consistent with the class, on which the two terms evaluate differently."""
import math, random, struct, hashlib
from wasmev import *
from wasmev import _key
import csem


# ------------------------------------------------------------------ substitution of decided conditions
def subst(v, known, memo):
    if not isinstance(v, E): return v
    r = memo.get(v.id)
    if r is not None: return r[0]
    r = _subst(v, known, memo)
    memo[v.id] = (r,)
    return r


def sbit(b, known, memo):
    if b in (0, 1): return b
    if b in known: return int(known[b])
    u = b[0]
    if u.op == 'not': return bnot(sbit(u.a[0], known, memo))
    if u.op == 'bite':
        c, x, y = u.a
        c = sbit(c, known, memo)
        if c in (0, 1): return sbit(x if c else y, known, memo)
        return bite(c, sbit(x, known, memo), sbit(y, known, memo))
    if u.op == 'eq': return _kn(cmpbit('eq', u.a[2], subst(u.a[0], known, memo), subst(u.a[1], known, memo)), known)
    if u.op in ('ult', 'slt'): return _kn(cmpbit(u.op, u.a[2], subst(u.a[0], known, memo), subst(u.a[1], known, memo)), known)
    if u.op in ('feq', 'flt', 'fle'): return _kn(fcmpbit(u.op[1:], u.a[2], subst(u.a[0], known, memo), subst(u.a[1], known, memo)), known)
    if u.op == 'sym':
        r = memo.get(u.id)
        if r is not None and isinstance(r[0], int): return r[0] >> b[1] & 1
        return memo.get(b, b)
    n = subst(u, known, memo)
    if isinstance(n, int): return n >> b[1] & 1
    return bits(n, u.w or 64)[b[1]]


def eqmemo(known):
    """unknowns the decided conditions fix to a constant"""
    m = {}
    for b, v in known.items():
        if v and b[0].op == 'eq' and isinstance(b[0].a[1], int) and b[0].a[0].op == 'sym' and b[0].a[0].w == b[0].a[2]: m[b[0].a[0].id] = (b[0].a[1],)
        elif v and b[0].op == 'eq' and isinstance(b[0].a[1], int) and b[0].a[0].op == 'bits':
            for i, q in enumerate(b[0].a[0].a[0]):
                if isinstance(q, tuple) and q[0].op == 'sym': m[q] = b[0].a[1] >> i & 1
    return m


def _kn(b, known):
    if b in (0, 1): return b
    if b in known: return int(known[b])
    return b


def _subst(v, known, memo):
    op = v.op
    s = lambda x: subst(x, known, memo)
    if op in ('sym', 'fconst', 'mem0', 'vconst', 'v0'): return v
    if op == 'bits': return mkbits(tuple(sbit(b, known, memo) for b in v.a[0]))
    if op == 'ite':
        c = sbit(v.a[0], known, memo)
        if c in (0, 1): return s(v.a[1] if c else v.a[2])
        return ite(c, v.w, s(v.a[1]), s(v.a[2]))
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'): return binop(op, v.w, s(v.a[0]), s(v.a[1]))
    if op in ('shl', 'lshr', 'ashr'): return shift(op, v.w, s(v.a[0]), _wide(s(v.a[1]), v.w))
    if op in ('sdiv', 'udiv', 'srem', 'urem'): return idiv(op, v.w, s(v.a[0]), s(v.a[1]))
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop2(op[1:], v.w, s(v.a[0]), s(v.a[1]))
    if op == 'sitof': return itof(v.w, s(v.a[0]), 64, True)
    if op == 'uitof': return itof(v.w, s(v.a[0]), 64, False)
    if op == 'fpext': return fpext(s(v.a[0]))
    if op == 'fptrunc': return fptrunc(s(v.a[0]))
    if op == 'wr':
        m = Mem(); m.chain = s(v.a[0]); m.write(s(v.a[1]), v.a[2], s(v.a[3])); return m.chain
    if op == 'ld':
        m = Mem(); m.chain = s(v.a[0]); return m.read(s(v.a[1]), v.a[2])
    if v.w == 1 and op in ('not', 'bite', 'eq', 'ult', 'slt', 'feq', 'flt', 'fle'):
        b = sbit((v, 0), known, memo)
        return b if isinstance(b, int) else b[0]
    return mk(op, v.w, *[s(x) if isinstance(x, E) else x for x in v.a])


def _wide(v, w):
    return v if isinstance(v, int) else zext(v, len(bits(v, v.w)), w) if v.w < w else v


def conditions(v, out, seen):
    """1-bit conditions a term depends on (deepest first)"""
    if not isinstance(v, E) or v.id in seen: return
    seen.add(v.id)
    for x in v.a:
        if isinstance(x, E): conditions(x, out, seen)
        elif isinstance(x, tuple):
            for b in (x if x and isinstance(x[0], (tuple, int)) else (x,)):
                if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], E): bcond(b, out, seen)


def bcond(b, out, seen):
    u = b[0]
    if u.op == 'not': 
        if u.a[0] not in (0, 1): bcond(u.a[0], out, seen)
        return
    conditions(u, out, seen)
    if u.op in ('eq', 'ult', 'slt', 'feq', 'flt', 'fle') or u.op == 'sym' and u.w == 1:
        if b not in out: out.append(b)
    elif u.op not in ('bite', 'ite') and b not in out: out.append(b)


# ------------------------------------------------------------------ valuation
class Undefined(Exception):
    pass


class Val:
    """a valuation of the unknowns"""

    def __init__(self, rnd, pool):
        self.r = rnd; self.pool = pool; self.s = {}; self.seed = rnd.random(); self.memo = {}; self.bools = set(); self.forced = {}

    def sym(self, u):
        v = self.s.get(u)
        if v is None:
            w = u.w; k = self.r.random()
            if k < .35 and self.pool: v = (self.r.choice(self.pool) + self.r.choice((-1, 0, 0, 0, 1))) & M(w)
            elif k < .5: v = self.r.getrandbits(8) & M(w)
            elif k < .6: v = (1 << (w - 1)) + self.r.choice((-1, 0, 1)) & M(w)
            elif k < .7: v = -self.r.getrandbits(6) & M(w)
            elif k < .85 and w in (32, 64):
                x = self.r.choice((0.0, -0.0, 1.5, -1.5, 3.0, -7.25, 100.5, 1e9, 4e9, -3e9, 1e18, 1.5e19, 0.1, -0.5, 250.75, 65000.5, 16777217.0, 1e300 if w == 64 else 1e30))
                v = struct.unpack('<Q' if w == 64 else '<I', struct.pack('<d' if w == 64 else '<f', x))[0]
            else: v = self.r.getrandbits(w) if w else 0
            for i, b in self.forced.get(u.id, ()): v = v & ~(1 << i) | b << i
            self.s[u] = v
        return v

    def bit(self, b):
        if b in (0, 1): return b
        return self.ev(b[0]) >> b[1] & 1

    def f(self, v):
        x = self.ev(v)
        return struct.unpack('<d', struct.pack('<Q', x))[0] if v.w == 64 else struct.unpack('<f', struct.pack('<I', x))[0]

    def pack(self, w, x):
        if x != x: return 0x7ff8000000000000 if w == 64 else 0x7fc00000
        if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0]
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000

    def byte(self, kind, a):
        if a in self.bools and kind == 'mem0': return hashlib.md5(repr((self.seed, kind, a)).encode()).digest()[0] & 1
        return hashlib.md5(repr((self.seed, kind, a)).encode()).digest()[0]

    def read(self, c, a, n): return sum(self.rb(c, a + i & 0xffffffff) << 8 * i for i in range(n))

    def rb(self, c, a):
        while True:
            if c.op == 'mem0': return self.byte('mem0', a)
            if c.op == 'called': return self.byte(c.a[1], a)
            if c.op == 'wr':
                w = self.ev(c.a[1]); d = a - w & 0xffffffff
                if d < c.a[2]:
                    x = self.ev(c.a[3]) if not isinstance(c.a[3], int) else c.a[3]
                    return x >> 8 * d & 255
                c = c.a[0]; continue
            if c.op == 'cp':
                d = a - self.ev(c.a[1]) & 0xffffffff
                if d < self.ev(c.a[3]): a = self.ev(c.a[2]) + d & 0xffffffff
                c = c.a[0]; continue
            raise Undefined(c.op)

    def ev(self, v):
        if isinstance(v, int): return v
        r = self.memo.get(v.id)
        if r is None:
            r = self._ev(v); self.memo[v.id] = r
        return r

    def _ev(self, v):
        op = v.op; w = v.w; a = v.a
        if op == 'sym': return self.sym(v)
        if op == 'fconst': return a[0]
        if op == 'bits': return sum(self.bit(b) << i for i, b in enumerate(a[0]))
        if op == 'not': return 1 - self.bit(a[0])
        if op == 'bite': return self.bit(a[1] if self.bit(a[0]) else a[2])
        if op == 'ite': return self.ev(a[1] if self.bit(a[0]) else a[2])
        if op == 'eq': return int(self.ev(a[0]) == self.ev(a[1]))
        if op == 'ult': return int(self.ev(a[0]) < self.ev(a[1]))
        if op == 'slt': return int(sx(self.ev(a[0]), a[2]) < sx(self.ev(a[1]), a[2]))
        if op in ('feq', 'flt', 'fle'):
            x, y = self.f(a[0]), self.f(a[1])
            return int({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            return binop(op, w, self.ev(a[0]), self.ev(a[1]))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0 or op == 'sdiv' and x == 1 << (w - 1) and y == M(w): raise Undefined('division')
            return binop(op, w, x, y)
        if op in ('shl', 'lshr', 'ashr'): return binop(op, w, self.ev(a[0]), self.ev(a[1]) & (w - 1))
        if op == 'sitof':
            return self.pack(w, _round(sx(self.ev(a[0]), 64), w))
        if op == 'uitof': return self.pack(w, _round(self.ev(a[0]), w))
        if op == 'fpext': return self.pack(64, self.f(a[0]))
        if op == 'fptrunc': return self.pack(32, self.f(a[0]))
        if op == 'fneg': return self.ev(a[0]) ^ 1 << (w - 1)
        if op == 'fpint':
            x = self.f(a[0])
            if x != x or abs(x) == float('inf') or x >= 2.0 ** 64 or x <= -2.0 ** 63 - 1: raise Undefined('float to integer')
            return int(x) & M(64)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.f(a[0]), self.f(a[1])
            if op == 'fdiv' and y == 0: raise Undefined('float division')
            try: r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
            except OverflowError: raise Undefined('float')
            return self.pack(w, r)
        if op == 'ld': return self.read(a[0], self.ev(a[1]), a[2])
        if op == 'fbits' or op == 'bitsf': return self.ev(a[0])
        # any other operator: an uninterpreted function of its operands
        k = repr((op, w, [self.ev(x) if isinstance(x, E) else self.bit(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], E) else x for x in a], self.seed))
        return int.from_bytes(hashlib.md5(k.encode()).digest(), 'little') & M(w or 64)


def _round(x, w):
    if w == 64: return float(x)
    # single rounding to float
    if abs(x) < 1 << 53: return float(x)
    k = abs(x).bit_length() - 24
    q, r = divmod(abs(x), 1 << k); h = 1 << (k - 1)
    if r > h or r == h and q & 1: q += 1
    return math.copysign(float(q << k), x)


def constants(v, out, seen):
    if isinstance(v, int): out.add(v); return
    if not isinstance(v, E) or v.id in seen: return
    seen.add(v.id)
    if v.op == 'fconst': return
    for x in v.a:
        if isinstance(x, (int, E)): constants(x, out, seen)
        elif isinstance(x, tuple):
            for b in (x if x and isinstance(x[0], (tuple, int)) else (x,)):
                if isinstance(b, tuple) and b and isinstance(b[0], E): constants(b[0], out, seen)


def witness(a, b, known, bools=(), n=3000):
    """a valuation consistent with the decided conditions on which the terms differ"""
    rnd = random.Random(1); pool = set(); seen = set()
    for x in (a, b): constants(x, pool, seen)
    for k in known: constants(k[0], pool, seen)
    pool = sorted(pool); forced = {}
    for k, v in known.items():
        if v and k[0].op == 'eq' and isinstance(k[0].a[1], int):
            for i, q in enumerate(bits(k[0].a[0], k[0].a[2])):
                if isinstance(q, tuple) and q[0].op == 'sym': forced.setdefault(q[0].id, []).append((q[1], k[0].a[1] >> i & 1))
    for i in range(n):
        v = Val(rnd, pool); v.forced = forced
        try:
            v.bools = {v.ev(x) for x in bools}
            if any(v.bit(k) != int(w) for k, w in known.items()): continue
            x, y = v.ev(a), v.ev(b)
        except (Undefined, OverflowError): continue
        if x != y:
            wd = getattr(a, 'w', 0) or getattr(b, 'w', 0)
            if isinstance(a, E) and isfp(a) or isinstance(b, E) and isfp(b):
                if v.nan(x, wd) and v.nan(y, wd): continue
            return {str(k): hex(z) for k, z in v.s.items()}, x, y
    return None


def isfp(e): return e.op in ('fconst', 'sitof', 'uitof', 'fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'fmin', 'fmax')


def _nan(self, x, w):
    return w == 32 and x & 0x7fffffff > 0x7f800000 or w == 64 and x & M(63) > 0x7ff0000000000000


Val.nan = _nan


# ------------------------------------------------------------------ comparison
class Diff(Exception):
    def __init__(self, what, exp=None, got=None): self.what = what; self.exp = exp; self.got = got


class Undecided(Exception):
    many = False


def void(known):
    """the decided conditions contradict each other"""
    for b, v in known.items():
        k = {c: w for c, w in known.items() if c is not b and c != b}
        if sbit(b, k, eqmemo(k)) == 1 - int(v): return True
    return False


def same(a, b, known, bools, budget):
    """decide whether two terms are equal in the class; Diff with a witness, Undecided otherwise"""
    memo = eqmemo(known)
    a = subst(a, known, memo); b = subst(b, known, memo)
    if a is b or isinstance(a, int) and isinstance(b, int) and a == b: return
    w = getattr(a, 'w', 0) or getattr(b, 'w', 0) or 32
    cs = []; seen = set()
    for x in (a, b): conditions(x, cs, seen)
    cs = [c for c in cs if c not in known]
    if cs and budget[0] > 0 and len(cs) <= 12:
        budget[0] -= 1
        for val in (False, True):
            k = dict(known); k[cs[0]] = val
            if consistent(k): same(a, b, k, bools, budget)
        return
    if void(known): return
    r = witness(a, b, known, bools)
    if r: raise Diff('values differ for %s' % ', '.join('%s=%s' % kv for kv in sorted(r[0].items())), '%s = %#x' % (show_(a), r[1]), '%s = %#x' % (show_(b), r[2]))
    raise Undecided('%s / %s' % (show_(a), show_(b)))


def show_(x): return repr(x)[:160]


def consistent(known):
    """cheap refutation of contradictory conditions"""
    eqs = {}
    for b, v in known.items():
        if b[0].op == 'eq' and isinstance(b[0].a[1], int) and v:
            if eqs.setdefault(b[0].a[0], b[0].a[1]) != b[0].a[1]: return False
    return True


class SmartOracle(Oracle):
    def decide(self, bit):
        if bit in (0, 1): return bool(bit)
        r = sbit(bit, self.known, eqmemo(self.known))
        if r in (0, 1): return bool(r)
        while r[0].op == 'not':
            return not self.decide(r[0].a[0])
        if r[0].op == 'eq' and isinstance(r[0].a[1], int):
            for b, v in self.known.items():
                if v and b[0].op == 'eq' and b[0].a[0] is r[0].a[0] and isinstance(b[0].a[1], int) and b[0].a[1] != r[0].a[1]: return False
        if r[0].op == 'bite':
            c, x, y = r[0].a
            return self.decide(x if self.decide(c) else y)
        raise Need(r)


SP = sym('g:$crt:sp$', 32)


def spoff(a):
    """offset of an address from the stack pointer at entry, None if it is not relative to it"""
    if a is SP: return 0
    if isinstance(a, E) and a.op == 'add' and a.a[0] is SP and isinstance(a.a[1], int): return sx(a.a[1], 32)
    return None


class FMem(Mem):
    """memory of the emitted code; what lies below the objects of the frame is private to call sequences"""

    def __init__(self, base): super().__init__(); self.base = base; self.priv = {}

    def write(self, addr, n, v):
        o = spoff(addr)
        if o is not None and o < self.base: self.priv[o] = (n, v); return
        super().write(addr, n, v)

    def read(self, addr, n):
        o = spoff(addr)
        if o is not None and o < self.base:
            k, v = self.priv.get(o, (0, 0))
            if k != n: raise Stuck('load of %d bytes from unwritten stack' % n)
            return v
        return super().read(addr, n)


class Run(WasmRun):
    base = 0; variadic = ()

    def retval(self, fn, k, t):
        ct = self.rets.get(name(fn)) if isinstance(fn, str) else self.rets.get('*')
        if ct is None: return sym('ret%d' % k, NB[t])
        return csem.abi(csem.retsym(ct, k), ct)

    def docall(self, fn, av, rs):
        sp = self.glob.get('$crt:sp$', SP); o = spoff(sp)
        if o is None: raise Stuck('stack pointer is not relative to its value at entry')
        if o > self.base: raise Diff('the stack pointer at a call does not protect the frame of the caller', self.base, o)
        if o & 15: raise Diff('the stack pointer at a call is not a multiple of 16', 0, o)
        if isinstance(fn, str) and name(fn) in self.variadic or not isinstance(fn, str) and '*' in self.variadic:
            a = spoff(av[-1])
            if a is None or a - 16 < o: raise Diff('the variable arguments of a call lie below the stack pointer', '>= %d' % (o + 16), a)
            cnt = self.mem.priv.get(a - 16, (0, None))
            av = av[:-1] + [('va', cnt, {k - a: v for k, v in self.mem.priv.items() if k >= a})]
        else:
            for x in av:
                a = spoff(x)
                if a is not None and a < self.base: raise Diff('address %d below the frame is passed to a function' % a)
        super().docall(fn, av, rs)


class First(Oracle):
    """any path"""
    def decide(self, bit): return bool(bit) if bit in (0, 1) else True


class Enough(Exception):
    pass


def layout(fun, func, sigs, rets):
    """addresses of the frame objects as the emitted code passes them to q: apart, aligned and inside the frame"""
    seen = []

    class R(Run):
        def docall(self, fn, av, rs):
            if isinstance(fn, str) and name(fn) == 'q':
                seen.append((av[0], self.glob.get('$crt:sp$', SP)))
                if len(seen) == len(fun.frame): raise Enough()
            WasmRun.docall(self, fn, av, rs)
    r = R(func, fun.wargs(), First(), mem=Mem(), sigs=sigs, maxloop=3); r.rets = rets or {}
    try: r.run()
    except Enough: pass
    else: raise Undecided('frame objects not found')
    base = spoff(seen[-1][1])
    if base is None: raise Undecided('frame base')
    ty = {n: t for n, t in fun.params}; ty.update({n: t for n, t, i in fun.locals})
    used = {}; out = {}
    for n, (a, _) in zip(fun.frame, seen):
        o = spoff(a); t = ty[n]
        if o is None: raise Undecided('address of %s' % n)
        if o < base or o + t.size > 0: raise Diff('%s (%d bytes) does not lie inside the stack frame' % (n, t.size), '%d..%d' % (base, 0), o)
        if o % max(1, t.align): raise Diff('%s is not aligned to %d' % (n, t.align), 0, o)
        for b in range(o, o + t.size):
            if b in used: raise Diff('%s and %s overlap in the stack frame' % (n, used[b]))
            used[b] = n
        out[n] = a
    return out, base


def compare(fun, func, sigs=None, maxclasses=200, maxloop=3, setup=None, prefix='x:', rets=None, variadic=()):
    """reference Fun against emitted Func; raises Diff / Undecided; returns number of classes compared"""
    work = [{}]; n = 0; cut = 0
    lay, base = layout(fun, func, sigs, rets) if fun.frame else ({}, 0)
    if len(func.params) != len(fun.wargs()): raise Diff('%d parameters' % len(func.params), len(fun.wargs()), len(func.params))
    while work:
        known = work.pop(); n += 1
        if n > maxclasses:
            u = Undecided('more than %d classes' % maxclasses); u.many = True
            raise u
        try:
            rm = Mem(); rm.bools = set(); env = csem.Env(SmartOracle(known), rm); env.maxloop = maxloop; env.layout = lay
            if setup: setup(env)
            rv = fun.run(env)
            wm = FMem(base); wm.bools = rm.bools
            run = Run(func, fun.wargs(), SmartOracle(known), mem=wm, sigs=sigs, maxloop=maxloop + 1); run.rets = dict(rets or {}, **({'*': fun.indirect} if getattr(fun, 'indirect', None) else {}))
            run.base = base; run.variadic = variadic
            wv = run.run()
        except Need as e:
            for v in (True, False):
                k = dict(known); k[e.bit] = v
                if consistent(k): work.append(k)
            continue
        except Stuck as e:
            if 'loop bound' in str(e): cut += 1; continue
            raise
        check(fun, env, rv, run, wv, known, prefix)
    if cut and cut == n: raise Undecided('every class leaves the loop bound')
    return n


def check(fun, env, rv, run, wv, known, prefix):
    bools = env.mem.bools; budget = [60]
    if fun.ret is csem.VOID or fun.ret.kind == 'struct':
        if wv: raise Diff('a void function leaves a value')
    else:
        if len(wv) != 1: raise Diff('%d results' % len(wv))
        if rv is not None: same(rv, wv[0], known, bools, budget)
    el = env.mem.log; wl = [e for e in run.log if e[0] != 'gset']
    for e, g in zip(el, wl):
        if e[0] != g[0]: raise Diff('effect %s instead of %s' % (show_(g), show_(e)), show_(e), show_(g))
        if e[0] == 'store':
            if e[2] != g[2]: raise Diff('store of %d bytes instead of %d' % (g[2], e[2]), show_(e), show_(g))
            same(e[1], g[1], known, bools, budget); same(e[3], g[3], known, bools, budget)
        elif e[0] == 'call':
            a, b = e[1], g[1]
            if isinstance(a, str) != isinstance(b, str) or isinstance(a, str) and name(b) != a: raise Diff('call of %s instead of %s' % (b, a))
            if not isinstance(a, str): same(a, b, known, bools, budget)
            if len(e[2]) != len(g[2]): raise Diff('call with %d arguments instead of %d' % (len(g[2]), len(e[2])))
            for x, y in zip(e[2], g[2]):
                if not isinstance(x, tuple): same(x, y, known, bools, budget); continue
                if not isinstance(y, tuple): raise Undecided('variable arguments not found')
                if y[1] != (4, x[1]): raise Diff('the count of variable arguments is wrong', x[1], show_(y[1]))
                for i, (n, v) in enumerate(x[2]):
                    k, w = y[2].get(16 * i, (0, 0))
                    if k != n: raise Diff('variable argument %d is passed as %d bytes' % (i, k), n, k)
                    same(v, w, known, bools, budget)
        elif e[0] == 'copy':
            for x, y in zip(e[1:], g[1:]): same(x, y, known, bools, budget)
    if len(el) != len(wl):
        k = min(len(el), len(wl))
        raise Diff('%d effects instead of %d' % (len(wl), len(el)), [show_(x) for x in el[k:]][:2], [show_(x) for x in wl[k:]][:2])
    for v, lo, hi in run.truncs:
        for v2, l2, h2 in env.truncs:
            if v2 is v and (l2 < lo or h2 > hi):
                raise Diff('conversion of a floating value to the range %d..%d covers only %d..%d' % (l2, h2, lo, hi))
    sp = [g for g in run.glob if g.endswith('sp$')]
    for g in sp:
        if run.glob[g] is not sym('g:' + g, 32): raise Diff('%s is not restored' % g, 'g:' + g, show_(run.glob[g]))


def name(s): return s.split(':', 1)[1] if isinstance(s, str) and ':' in s else s
