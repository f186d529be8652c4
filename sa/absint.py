"""Abstract interpretation of LLVM IR.

Domain: integers are constants or hash-consed terms whose individual bits are tracked (known 0/1 or "bit i of
unknown u"); each unknown also carries a set of unsigned intervals; pointers are (object, offset).  Everything an
obligation does not fix is an unknown, so a result holds for every value of it.  Branches on unknowns partition the
trace (both sides are analysed, with the condition assumed); repeated partitioning of one branch on a path is bounded and
a path that exceeds the bound is reported as 'cut', never used to accuse.  Calls to defined functions are analysed in
context; calls to functions the obligation declares opaque, and to undefined ones, become events of the trace."""
import sys
from ir import AnalysisError

sys.setrecursionlimit(10000)


class E:
    __slots__ = ('op', 'w', 'a', 'id', '_b')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, w, *a):
    key = (op, w, a)
    e = _tab.get(key)
    if e is None:
        e = E(); e.op = op; e.w = w; e.a = a; e.id = len(_tab); e._b = None
        _tab[key] = e
    return e


def sym(name, w):
    return mk('sym', w, name)


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return mk('sym', w, '%s#%d' % (name, _fresh[0]))


def show(v, d=0):
    if isinstance(v, int): return str(v)
    if isinstance(v, E):
        if v.op == 'sym': return str(v.a[0])
        if v.op == 'fconst': return 'fp:%x' % v.a[0]
        if d > 4: return '..'
        if v.op == 'bits':
            return 'bits(' + showbits(v.a[0]) + ')'
        return '%s(%s)' % (v.op, ','.join(show(x, d + 1) if not isinstance(x, (str, tuple)) else str(x) for x in v.a))
    if isinstance(v, P):
        return '&%s%s' % (showobj(v.obj), '' if v.off == 0 else '+' + show(v.off))
    return str(v)


def showobj(o):
    if o[0] == 's': return '[%s]' % show(o[1])
    return '.'.join(map(str, o))


def showbits(bs):
    out = []; i = 0
    while i < len(bs):
        b = bs[i]; j = i + 1
        if b in (0, 1):
            while j < len(bs) and bs[j] == b: j += 1
            out.append('%d*%d' % (b, j - i))
        else:
            while j < len(bs) and isinstance(bs[j], tuple) and bs[j][0] is b[0] and bs[j][1] == b[1] + j - i: j += 1
            out.append('%s[%d:%d]' % (show(b[0], 3), b[1], b[1] + j - i))
        i = j
    return ' '.join(out)


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off

    def __eq__(self, o):
        return isinstance(o, P) and self.obj == o.obj and (self.off is o.off or self.off == o.off)

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return show(self)


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod): self.name = name; self.mod = mod
    def __repr__(self): return '@' + self.name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)


def M(w): return (1 << w) - 1


def bits(v, w):
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, E):
        if v.op == 'bits': return v.a[0]
        if v._b is None:
            if v.op == 'fconst': v._b = tuple((v.a[0] >> i) & 1 for i in range(v.w))
            else: v._b = tuple((v, i) for i in range(v.w or 64))
        return v._b
    u = mk('ptrbits', 64, v) if isinstance(v, (P, Fn)) else fresh('top', w)
    return tuple((u, i) for i in range(w))


def mkbits(bs):
    w = len(bs)
    if not any(isinstance(b, tuple) for b in bs):
        return sum(b << i for i, b in enumerate(bs))
    b0 = bs[0]
    if isinstance(b0, tuple):
        u = b0[0]
        if (u.w or 64) == w and all(isinstance(b, tuple) and b[0] is u and b[1] == i for i, b in enumerate(bs)):
            if u.op == 'ptrbits': return u.a[0]
            return u
    return mk('bits', w, tuple(bs))


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, w, a, b):
    m = M(w)
    ia = isinstance(a, int); ib = isinstance(b, int)
    if ia and ib:
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else fresh('ub', w)
        if op == 'lshr': return a >> b if b < w else fresh('ub', w)
        if op == 'ashr': return (sx(a, w) >> b) & m if b < w else fresh('ub', w)
        if op in ('udiv', 'urem'):
            if b == 0: return fresh('ub', w)
            return a // b if op == 'udiv' else a % b
        sa, sb = sx(a, w), sx(b, w)
        if sb == 0: return fresh('ub', w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        return q & m if op == 'sdiv' else (sa - q * sb) & m
    if op in COMM and ia: a, b, ia, ib = b, a, ib, ia
    if isinstance(a, (P, Fn)): a = mk('ptrbits', 64, a)
    if isinstance(b, (P, Fn)): b = mk('ptrbits', 64, b)
    if op == 'and':
        if a is b: return a
        x = bits(a, w); y = bits(b, w); r = []
        for p, q in zip(x, y):
            if p == 0 or q == 0: r.append(0)
            elif p == 1: r.append(q)
            elif q == 1: r.append(p)
            elif p == q: r.append(p)
            else: return mk('and', w, *sorted((a, b), key=_key))
        return mkbits(r)
    if op == 'or':
        if a is b: return a
        x = bits(a, w); y = bits(b, w); r = []
        for p, q in zip(x, y):
            if p == 1 or q == 1: r.append(1)
            elif p == 0: r.append(q)
            elif q == 0: r.append(p)
            elif p == q: r.append(p)
            else: return mk('or', w, *sorted((a, b), key=_key))
        return mkbits(r)
    if op == 'xor':
        if a is b: return 0
        x = bits(a, w); y = bits(b, w); r = []
        for p, q in zip(x, y):
            if q == 0: r.append(p)
            elif p == 0: r.append(q)
            elif p in (0, 1) and q in (0, 1): r.append(p ^ q)
            elif q == 1 or p == 1:
                o = p if q == 1 else q
                r.append((mk('not', 1, o), 0) if not (isinstance(o, tuple) and o[0].op == 'not') else o[0].a[0])
            elif p == q: r.append(0)
            else: return mk('xor', w, *sorted((a, b), key=_key))
        return mkbits(r)
    if op == 'shl' and ib:
        if b >= w: return fresh('ub', w)
        return mkbits((0,) * b + bits(a, w)[:w - b])
    if op == 'lshr' and ib:
        if b >= w: return fresh('ub', w)
        return mkbits(bits(a, w)[b:] + (0,) * b)
    if op == 'ashr' and ib:
        if b >= w: return fresh('ub', w)
        x = bits(a, w)
        return mkbits(x[b:] + (x[-1],) * b)
    if op == 'add':
        if ib and b == 0: return a
        if isinstance(a, E) and a.op == 'add' and ib and isinstance(a.a[1], int):
            return binop('add', w, a.a[0], (a.a[1] + b) & m)
        x = bits(a, w); y = bits(b, w)
        if all(p == 0 or q == 0 for p, q in zip(x, y)):
            return mkbits([q if p == 0 else p for p, q in zip(x, y)])
        if not ib: a, b = sorted((a, b), key=_key)
        return mk('add', w, a, b)
    if op == 'sub':
        if a is b: return 0
        if ib: return binop('add', w, a, (-b) & m)
        # (x + c) - x
        if isinstance(a, E) and a.op == 'add' and a.a[0] is b: return a.a[1]
        if ia and a == 0 and isinstance(b, E) and b.op == 'sub' and b.a[0] == 0: return b.a[1]
        pa, pb = _punptr(a), _punptr(b)
        if isinstance(pa, P) and isinstance(pb, P) and pa.obj == pb.obj:
            return binop('sub', w, pa.off, pb.off)
        return mk('sub', w, a, b)
    if op == 'mul':
        if ib:
            if b == 0: return 0
            if b == 1: return a
            if b & (b - 1) == 0: return binop('shl', w, a, b.bit_length() - 1)
        else: a, b = sorted((a, b), key=_key)
        return mk('mul', w, a, b)
    if op == 'udiv' and ib and b and b & (b - 1) == 0: return binop('lshr', w, a, b.bit_length() - 1)
    if op == 'urem' and ib and b and b & (b - 1) == 0: return binop('and', w, a, b - 1)
    if op in ('udiv', 'sdiv') and ib and b == 1: return a
    if op == 'sdiv' and ib and isinstance(a, E) and a.op == 'mul' and a.a[1] == b: return a.a[0]
    return mk(op, w, a, b)


def _punptr(v):
    if isinstance(v, E) and v.op == 'ptrbits': v = v.a[0]
    if isinstance(v, E): return P(('s', v), 0)
    return v


def _key(x):
    return (0, x.id) if isinstance(x, E) else (1, x if isinstance(x, int) else 0)


def zext(v, fw, w):
    if isinstance(v, int): return v
    return mkbits(bits(v, fw) + (0,) * (w - fw))


def sext(v, fw, w):
    if isinstance(v, int): return sx(v, fw) & M(w)
    b = bits(v, fw)
    return mkbits(b + (b[-1],) * (w - fw))


def trunc(v, fw, w):
    if isinstance(v, int): return v & M(w)
    return mkbits(bits(v, fw)[:w])


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt',
       'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt',
        'sle': 'sge', 'sge': 'sle'}


def cmpset(pred, c, w):
    """unsigned intervals of x with x <pred> c"""
    m = M(w); h = 1 << (w - 1)
    if pred == 'eq': return [(c, c)]
    if pred == 'ne': return inorm([(0, c - 1), (c + 1, m)])
    if pred == 'ult': return inorm([(0, c - 1)])
    if pred == 'ule': return [(0, c)]
    if pred == 'ugt': return inorm([(c + 1, m)])
    if pred == 'uge': return [(c, m)]
    s = sx(c, w)
    if pred == 'slt': lo, hi = -h, s - 1
    elif pred == 'sle': lo, hi = -h, s
    elif pred == 'sgt': lo, hi = s + 1, h - 1
    else: lo, hi = s, h - 1
    return sset(lo, hi, w)


def sset(lo, hi, w):
    if lo > hi: return []
    r = []
    if hi >= 0: r.append((max(lo, 0), hi))
    if lo < 0: r.append((lo + (1 << w), min(hi, -1) + (1 << w)))
    return inorm(r)


def inorm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    r = []
    for a, b in iv:
        if r and a <= r[-1][1] + 1: r[-1] = (r[-1][0], max(b, r[-1][1]))
        else: r.append((a, b))
    return r


def iand(x, y):
    r = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0]); b = min(x[i][1], y[j][1])
        if a <= b: r.append((a, b))
        if x[i][1] < y[j][1]: i += 1
        else: j += 1
    return r


class Frame:
    __slots__ = ('f', 'regs', 'blk', 'prev', 'ip', 'visits', 'forks', 'retdst', 'va', 'call')

    def copy(self):
        n = Frame(); n.f = self.f; n.regs = dict(self.regs); n.blk = self.blk; n.prev = self.prev; n.ip = self.ip
        n.visits = dict(self.visits); n.forks = dict(self.forks); n.retdst = self.retdst; n.va = self.va; n.call = self.call
        return n


class State:
    __slots__ = ('frames', 'mem', 'own', 'rng', 'facts', 'trace', 'nobj', 'kind', 'value', 'steps', 'sizes', 'note', 'data', 'site', 'kn')

    def __init__(self):
        self.frames = []; self.mem = {}; self.own = set(); self.rng = {}; self.facts = {}; self.trace = []
        self.nobj = 0; self.kind = None; self.value = None; self.steps = 0; self.sizes = {}; self.note = None
        self.data = {}; self.site = None
        self.kn = {}             # unknown -> (mask, value) of bits known on this path

    def fork(self):
        n = State()
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem); self.own = set(); n.own = set()
        n.rng = dict(self.rng); n.facts = dict(self.facts); n.trace = list(self.trace)
        n.nobj = self.nobj; n.steps = self.steps; n.sizes = dict(self.sizes); n.note = self.note
        n.data = dict(self.data); n.kn = dict(self.kn)
        return n


class Obj:
    """memory object: cells offset -> (size, value); base describes bytes not written"""
    __slots__ = ('cells', 'base')

    def __init__(self, base): self.cells = {}; self.base = base

    def copy(self):
        n = Obj(self.base); n.cells = dict(self.cells)
        return n


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class Engine:
    def __init__(self, prog, hooks=None, opaque=(), maxsteps=400000, maxpaths=400, maxforks=4, maxvisits=4000,
                 symglobals=True, maxdepth=60, opaque_pred=None):
        self.prog = prog
        self.hooks = dict(DEFAULT_HOOKS)
        if hooks: self.hooks.update(hooks)
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.maxsteps = maxsteps; self.maxpaths = maxpaths; self.maxforks = maxforks; self.maxvisits = maxvisits
        self.symglobals = symglobals; self.maxdepth = maxdepth
        self.mutable = {}
        self.fnseen = set()
        self.totsteps = 0

    # ---------------------------------------------------------------- memory
    def is_mutable(self, g):
        """a global is mutable unless constant or never the target of a store or an escaping use"""
        mod = g.mod
        tab = self.mutable.get(mod.name)
        if tab is None:
            tab = self.mutable[mod.name] = compute_mutable(mod)
            if len(self.prog.mods) > 1:
                for m in self.prog.mods.values():
                    if m is not mod:
                        for n in compute_mutable(m):
                            if n in mod.globals and not mod.globals[n].internal: tab.add(n)
        return g.name in tab

    def base_obj(self, st, obj):
        k = obj[0]
        if k == 'g':
            g = self.prog.mods[obj[1]].globals[obj[2]]
            sg = self.symglobals
            if callable(sg): sg = sg(g)
            if g.ext or (not g.const and sg and self.is_mutable(g)):
                return Obj(('sym', obj))
            o = Obj(('undef', obj))
            self.init_cells(o, g.mod, g.ty, g.init, 0)
            o.base = ('zero', obj)
            return o
        if k == 's': return Obj(('sym', obj))
        return Obj(('undef', obj))

    def init_cells(self, o, mod, ty, v, off):
        k = v[0]
        if k == 'z' or k == 'u': return
        if k == 'bytes':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            t = mod.res(ty)
            if t.k == 'st':
                offs = mod.layout(ty)[0]
                for (et, ev), eo in zip(v[1], offs): self.init_cells(o, mod, et, ev, off + eo)
            else:
                sz = mod.sizeof(t.el)
                for i, (et, ev) in enumerate(v[1]): self.init_cells(o, mod, et, ev, off + i * sz)
            return
        o.cells[off] = (mod.sizeof(ty), self.const(mod, ty, v))

    def obj(self, st, obj, write=False):
        o = st.mem.get(obj)
        if o is None:
            o = self.base_obj(st, obj)
            st.mem[obj] = o; st.own.add(obj)
        elif write and obj not in st.own:
            o = o.copy(); st.mem[obj] = o; st.own.add(obj)
        return o

    def to_ptr(self, v):
        if isinstance(v, P): return v
        if isinstance(v, E):
            if v.op == 'ptrbits': return self.to_ptr(v.a[0])
            if v.op == 'add' and isinstance(v.a[1], int):
                b = self.to_ptr(v.a[0])
                if isinstance(b, P) and isinstance(b.off, int):
                    return P(b.obj, b.off + sx(v.a[1], 64))
            return P(('s', v), 0)
        return None

    def base_val(self, o, off, n):
        kind, obj = o.base
        if kind == 'zero': return 0
        if kind == 'undef': return fresh('undef', n * 8)
        return mk('mem', n * 8, (obj, kind), off)

    def load(self, st, ptr, n):
        p = self.to_ptr(ptr)
        if p is None:
            raise Infeasible('null load')
        o = self.obj(st, p.obj)
        off = p.off
        if not isinstance(off, int):
            off = self.simp(st, off)
        if not isinstance(off, int):
            iv = self.interval(st, off, 64)
            return mk('mem', n * 8, (p.obj, o.base[0], self.version(o)), off)
        off = sx(off & M(64), 64)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # assemble
        over = [(k, c) for k, c in o.cells.items() if k < off + n and off < k + c[0]] if n < 64 else []
        if not over: return self.base_val(o, off, n)
        bs = []
        i = 0
        while i < n:
            c = None
            for k, cc in over:
                if k <= off + i < k + cc[0]: c = (k, cc); break
            if c is None:
                v = self.base_val(o, off + i, 1)
                bs.extend(bits(v, 8)); i += 1
            else:
                k, (sz, v) = c
                b = bits(v, sz * 8)
                lo = off + i - k
                take = min(sz - lo, n - i)
                bs.extend(b[lo * 8:(lo + take) * 8]); i += take
        return mkbits(tuple(bs))

    def version(self, o):
        return tuple(sorted(((k, c[0], show(c[1])) for k, c in o.cells.items()), key=str)) if o.cells and len(o.cells) < 8 else (len(o.cells),)

    def store(self, st, ptr, n, v):
        p = self.to_ptr(ptr)
        if p is None: raise Infeasible('null store')
        o = self.obj(st, p.obj, True)
        off = p.off
        if not isinstance(off, int): off = self.simp(st, off)
        if not isinstance(off, int):
            o = Obj(('havoc%d' % fresh('h', 1).id, p.obj)); st.mem[p.obj] = o; st.own.add(p.obj)
            st.trace.append(('symstore', showobj(p.obj), off, v, n))
            return
        off = sx(off & M(64), 64)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        for k in [k for k, c in o.cells.items() if k < off + n and off < k + c[0]]:
            sz, ov = o.cells.pop(k)
            b = bits(ov, sz * 8)
            for j in range(sz):
                if not (off <= k + j < off + n):
                    o.cells[k + j] = (1, mkbits(b[j * 8:j * 8 + 8]))
        o.cells[off] = (n, v)

    def havoc(self, st, ptr):
        p = self.to_ptr(ptr)
        if p is None: return
        st.mem[p.obj] = Obj(('havoc%d' % fresh('h', 1).id, p.obj)); st.own.add(p.obj)

    def memcpy(self, st, d, s, n):
        d = self.to_ptr(d); s = self.to_ptr(s)
        if n == 0: return
        if d is None or s is None: raise Infeasible('null memcpy')
        if not isinstance(n, int) or not isinstance(d.off, int) or not isinstance(s.off, int):
            self.havoc(st, d); return
        so = self.obj(st, s.obj); a = sx(s.off & M(64), 64)
        cells = []
        pos = a
        items = sorted((k, c) for k, c in so.cells.items() if k < a + n and a < k + c[0])
        for k, (sz, v) in items:
            lo = max(k, a); hi = min(k + sz, a + n)
            if pos < lo: cells.append((pos, lo - pos, None)); pos = lo
            if (lo, hi) == (k, k + sz): cells.append((k, sz, v))
            else:
                b = bits(v, sz * 8)
                cells.append((lo, hi - lo, mkbits(b[(lo - k) * 8:(hi - k) * 8])))
            pos = hi
        if pos < a + n: cells.append((pos, a + n - pos, None))
        # only materialise the gaps lazily: 8-byte pieces
        do = sx(d.off & M(64), 64)
        if not items and do == 0 and a == 0 and s.obj[0] in ('s', 'g') and n > 64:
            o = Obj((so.base[0], so.base[1])); st.mem[d.obj] = o; st.own.add(d.obj)
            return
        if n > 65536: self.havoc(st, d); return
        for k, sz, v in cells:
            if v is None:
                i = 0
                while i < sz:
                    st_ = 8 if (k + i) % 8 == 0 and sz - i >= 8 else 4 if (k + i) % 4 == 0 and sz - i >= 4 else 1
                    self.store(st, P(d.obj, do + k + i - a), st_, self.base_val(so, k + i, st_))
                    i += st_
            else:
                self.store(st, P(d.obj, do + k - a), sz, v)

    def cstr(self, st, ptr, limit=4096):
        """the constant C string at ptr, or None"""
        p = self.to_ptr(ptr)
        if p is None or not isinstance(p.off, int): return None
        o = self.obj(st, p.obj)
        out = bytearray()
        for i in range(limit):
            v = self.load(st, P(p.obj, p.off + i), 1)
            v = self.simp(st, v)
            if not isinstance(v, int): return None
            if v == 0: return bytes(out)
            out.append(v)
        return None

    def new_obj(self, st, tag, base='undef', size=None):
        st.nobj += 1
        o = ('h', '%s%d' % (tag, st.nobj))
        st.mem[o] = Obj((base, o)); st.own.add(o)
        if size is not None: st.sizes[o] = size
        return P(o, 0)

    def new_str(self, st, s, tag='str'):
        if isinstance(s, str): s = s.encode()
        p = self.new_obj(st, tag)
        o = st.mem[p.obj]
        for i, b in enumerate(s + b'\0'): o.cells[i] = (1, b)
        return p

    # ---------------------------------------------------------------- ranges and facts
    def simp(self, st, v):
        if isinstance(v, E):
            r = st.rng.get(v)
            if r is not None and len(r) == 1 and r[0][0] == r[0][1]: return r[0][0]
            if v.op == 'sym' and st.kn and v in st.kn:
                return self.simp(st, mk('bits', v.w, bits(v, v.w)))
            if v.op == 'bits':
                ch = False; out = []
                for b in v.a[0]:
                    if isinstance(b, tuple):
                        u = b[0]
                        kb = st.kn.get(u)
                        if kb is not None and kb[0] >> b[1] & 1:
                            out.append(kb[1] >> b[1] & 1); ch = True; continue
                        r = st.rng.get(u)
                        if r is not None:
                            if len(r) == 1 and r[0][0] == r[0][1]:
                                out.append(r[0][0] >> b[1] & 1); ch = True; continue
                            hi = r[-1][1]
                            if hi >> b[1] == 0: out.append(0); ch = True; continue
                    out.append(b)
                if ch: return mkbits(tuple(out))
            elif v.op in ('add', 'mul', 'sub', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                a, b = v.a
                a2 = self.simp(st, a); b2 = self.simp(st, b)
                if a2 is not a or b2 is not b: return binop(v.op, v.w, a2, b2)
        return v

    def interval(self, st, v, w):
        """unsigned intervals covering v"""
        if isinstance(v, int): return [(v, v)]
        if not isinstance(v, E): return [(1, M(w))]
        own = st.rng.get(v)
        r = [(0, M(w))]
        if v.op == 'bits':
            bs = v.a[0]
            lo = sum(1 << i for i, b in enumerate(bs) if b == 1)
            hi = sum(1 << i for i, b in enumerate(bs) if b != 0)
            r = [(lo, hi)]
            base = self.pull(st, v)
            if base is not None:
                kind, u, k = base
                ui = st.rng.get(u)
                if ui is not None:
                    if kind == 'z': r = iand(r, ui)
                    elif kind == 's':
                        uw = u.w; q = []
                        for a, b in ui:
                            q += sset_range(a, b, uw, w)
                        r = iand(r, inorm(q))
                    elif kind == 't' and ui[-1][1] <= M(w): r = iand(r, ui)
        elif v.op == 'add' and isinstance(v.a[1], int):
            bi = self.interval(st, v.a[0], w); c = v.a[1]
            if len(bi) <= 8 and bi != [(0, M(w))]:
                q = []
                for a, b in bi:
                    a2 = a + c; b2 = b + c; m = M(w)
                    if b2 <= m: q.append((a2, b2))
                    elif a2 > m: q.append((a2 & m, b2 & m))
                    else: q += [(a2, m), (0, b2 & m)]
                r = inorm(q)
        elif v.op == 'urem' and isinstance(v.a[1], int) and v.a[1]:
            r = [(0, v.a[1] - 1)]
        elif v.op == 'udiv' and isinstance(v.a[1], int) and v.a[1]:
            r = inorm([(a // v.a[1], b // v.a[1]) for a, b in self.interval(st, v.a[0], w)])
        elif v.op == 'ptrbits':
            r = [(1, M(w))]
        if own is not None: r = iand(r, own)
        return r

    def pull(self, st, v):
        """recognise zext/sext/trunc of one unknown, some of whose bits may have been replaced by what the path knows of
        them: ('z'|'s'|'t', unknown, width)"""
        bs = v.a[0]
        u = None
        for i, b in enumerate(bs):
            if isinstance(b, tuple):
                u = b[0]
                if b[1] != i: return None
                break
        if u is None: return None
        uw = u.w or 64
        km, kv = st.kn.get(u, (0, 0))
        r = st.rng.get(u)
        hi = r[-1][1] if r else M(uw)
        def is_bit(b, k):
            if isinstance(b, tuple): return b[0] is u and b[1] == k
            if km >> k & 1: return kv >> k & 1 == b
            return b == 0 and hi >> k == 0
        n = 0
        while n < len(bs) and n < uw and is_bit(bs[n], n): n += 1
        if n == len(bs): return ('t', u, n)
        if n < uw: return None
        rest = bs[n:]
        if all(b == 0 for b in rest): return ('z', u, n)
        if all(is_bit(b, uw - 1) for b in rest): return ('s', u, n)
        return None

    def assume_set(self, st, v, w, iv):
        """assume v in iv; raise Infeasible if impossible"""
        if isinstance(v, int):
            if not any(a <= v <= b for a, b in iv): raise Infeasible()
            return
        if not isinstance(v, E): return
        r = iand(self.interval(st, v, w), iv)
        if not r: raise Infeasible()
        st.rng[v] = r
        if v.op == 'bits':
            base = self.pull(st, v)
            if base is not None:
                kind, u, k = base
                if kind == 'z': self.assume_set(st, u, u.w or 64, r)
                elif kind == 's':
                    q = []
                    uw = u.w; h = 1 << (uw - 1)
                    for lo, hi in ((0, h - 1), (M(w) - h + 1, M(w))):
                        for a, b in r:
                            a2 = max(a, lo); b2 = min(b, hi)
                            if a2 <= b2: q.append((a2 & M(uw), b2 & M(uw)))
                    self.assume_set(st, u, uw, inorm(q))
            if len(r) == 1 and r[0][0] == r[0][1]:
                # every bit is now known
                per = {}
                for i, b in enumerate(v.a[0]):
                    bit = r[0][0] >> i & 1
                    if b in (0, 1):
                        if b != bit: raise Infeasible()
                    else: per.setdefault(b[0], {})[b[1]] = bit
                for u, d in per.items():
                    uw = u.w or 64
                    km, kv = st.kn.get(u, (0, 0))
                    for i, bb in d.items():
                        if km >> i & 1 and (kv >> i & 1) != bb: raise Infeasible()
                        km |= 1 << i; kv = kv & ~(1 << i) | bb << i
                    if u.op != 'ptrbits': st.kn[u] = (km, kv)
                    if len(d) == uw:
                        self.assume_set(st, u, uw, [(x, x) for x in [sum(bb << i for i, bb in d.items())]])
                    elif u.op == 'not' and 0 in d:
                        pass
        elif v.op == 'add' and isinstance(v.a[1], int):
            c = v.a[1]; m = M(w); q = []
            for a, b in r:
                a2 = (a - c) & m; b2 = (b - c) & m
                if a2 <= b2: q.append((a2, b2))
                else: q += [(a2, m), (0, b2)]
            self.assume_set(st, v.a[0], w, inorm(q))

    def known(self, st, v, w):
        """the bits of v with everything this path knows filled in"""
        out = []
        for b in bits(v, w):
            if isinstance(b, tuple):
                kb = st.kn.get(b[0])
                if kb is not None and kb[0] >> b[1] & 1: b = kb[1] >> b[1] & 1
                else:
                    r = st.rng.get(b[0])
                    if r is not None:
                        if len(r) == 1 and r[0][0] == r[0][1]: b = r[0][0] >> b[1] & 1
                        elif r[-1][1] >> b[1] == 0: b = 0
            out.append(b)
        return out

    def icmp(self, st, pred, w, a, b):
        """returns True/False/E"""
        a = self.simp(st, a); b = self.simp(st, b)
        if isinstance(a, int) and not isinstance(b, int): a, b, pred = b, a, SWAP[pred]
        if isinstance(a, int) and isinstance(b, int):
            return _icmp(pred, w, a, b)
        # pointers
        pa = a.a[0] if isinstance(a, E) and a.op == 'ptrbits' else a
        pb = b.a[0] if isinstance(b, E) and b.op == 'ptrbits' else b
        if isinstance(pa, (P, Fn)) or isinstance(pb, (P, Fn)):
            if isinstance(pa, Fn) and isinstance(pb, Fn): return (pa.name == pb.name) == (pred == 'eq')
            if isinstance(pb, int):
                if pb == 0:
                    if pred == 'eq': return False
                    if pred == 'ne': return True
                if pred in ('ugt', 'uge'): return True if pb < 4096 else mk('icmp', 1, pred, a, b)
                if pred in ('ult', 'ule') and pb < 4096: return False
                return mk('icmp', 1, pred, a, b)
            if isinstance(pa, P) and isinstance(pb, P) or isinstance(pa, P) and isinstance(pb, E) or isinstance(pa, E) and isinstance(pb, P):
                qa = self.to_ptr(pa); qb = self.to_ptr(pb)
                if qa.obj == qb.obj:
                    return self.icmp(st, {'eq': 'eq', 'ne': 'ne'}.get(pred, pred.replace('u', 's')), 64, qa.off if not isinstance(qa.off, int) else qa.off & M(64), qb.off if not isinstance(qb.off, int) else qb.off & M(64))
                if qa.obj[0] != 's' and qb.obj[0] != 's' and pred in ('eq', 'ne'):
                    return pred == 'ne'
                if pred in ('eq', 'ne') and ('s' not in (qa.obj[0], qb.obj[0]) or (qa.obj[0] in 'ah') != (qb.obj[0] in 'ah') and _old(qa, qb)):
                    return pred == 'ne'
            e = mk('icmp', 1, pred, a, b)
            return st.facts.get(e, e)
        if a is b or isinstance(a, E) and isinstance(b, E) and (a.op == 'bits' or b.op == 'bits') and self.known(st, a, w) == self.known(st, b, w):
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if isinstance(b, int):
            # bitwise knowledge for eq
            if pred in ('eq', 'ne') and isinstance(a, E) and a.op == 'bits':
                for i, x in enumerate(a.a[0]):
                    if x in (0, 1) and x != (b >> i & 1): return pred == 'ne'
            iv = self.interval(st, a, w)
            s = cmpset(pred, b, w)
            x = iand(iv, s)
            if not x: return False
            if x == inorm(iv): return True
            if pred in ('slt', 'sge') and b == 0:
                tb = bits(a, w)[w - 1]
                if tb in (0, 1): return (tb == 1) == (pred == 'slt')
            if pred in ('eq', 'ne') and b == 0 and isinstance(a, E) and a.op == 'bits':
                nz = [x for x in a.a[0] if x != 0]
                if len(nz) == 1 and isinstance(nz[0], tuple) and nz[0][0].op == 'icmp':
                    f = nz[0][0]
                    f = st.facts.get(f, f)
                    if f in (True, False): return f if pred == 'ne' else not f
                    if pred == 'ne': return f
                    return mk('icmp', 1, NEG[f.a[0]], f.a[1], f.a[2])
            if pred in ('eq', 'ne') and w == 1:
                u = a
                if isinstance(u, E) and u.op == 'icmp':
                    want = (b == 1) == (pred == 'eq')
                    f = st.facts.get(u, u)
                    if f in (True, False): return f == want
                    return u if want else mk('icmp', 1, NEG[u.a[0]], u.a[1], u.a[2])
        else:
            ia = self.interval(st, a, w); ib = self.interval(st, b, w)
            if pred in ('eq', 'ne') and not iand(ia, ib): return pred == 'ne'
            if ia and ib:
                if pred == 'ult':
                    if ia[-1][1] < ib[0][0]: return True
                    if ia[0][0] >= ib[-1][1]: return False
                if pred == 'uge':
                    if ia[0][0] >= ib[-1][1]: return True
                    if ia[-1][1] < ib[0][0]: return False
            if pred in ('eq', 'ne') and isinstance(a, E) and isinstance(b, E):
                for x, y in zip(bits(a, w), bits(b, w)):
                    if x in (0, 1) and y in (0, 1) and x != y: return pred == 'ne'
        if pred in ('eq', 'ne') and isinstance(b, int) and isinstance(a, E) and a.op == 'bits':
            # equality that hangs on a single unknown bit is that bit
            un = {x for x in a.a[0] if isinstance(x, tuple)}
            if len(un) == 1:
                x = un.pop()
                want = {b >> i & 1 for i, y in enumerate(a.a[0]) if y == x}
                if len(want) == 1 and x[0].op not in ('icmp', 'fcmp', 'ptrbits'):
                    pos = (want.pop() == 1) == (pred == 'eq')
                    if not pos:
                        x = x[0].a[0] if x[0].op == 'not' else (mk('not', 1, x), 0)
                    return self.cond(st, mkbits((x,)))
        e = mk('icmp', 1, pred, a, b)
        f = st.facts.get(e)
        if f is not None: return f
        n = mk('icmp', 1, NEG[pred], a, b)
        f = st.facts.get(n)
        if f is not None: return not f
        e2 = mk('icmp', 1, SWAP[pred], b, a)
        f = st.facts.get(e2)
        if f is not None: return f
        return e

    def assume(self, st, c, truth):
        """assume 1-bit value c is truth"""
        if isinstance(c, int):
            if bool(c) != truth: raise Infeasible()
            return
        if c is True or c is False:
            if c != truth: raise Infeasible()
            return
        if isinstance(c, E) and c.op == 'not':
            o = c.a[0]
            self.assume(st, mkbits((o,)) if isinstance(o, tuple) else o, not truth); return
        f = st.facts.get(c)
        if f is not None:
            if f != truth: raise Infeasible()
            return
        st.facts[c] = truth
        if isinstance(c, E) and c.op == 'icmp':
            pred, a, b = c.a
            if not truth: pred = NEG[pred]
            w = width(a, b)
            if pred == 'ne' and isinstance(b, int) and isinstance(a, E) and a.op == 'bits':
                # one distinct unknown bit, the rest as in b: that bit is the opposite
                un = {x for x in a.a[0] if isinstance(x, tuple)}
                if len(un) == 1:
                    x = un.pop()
                    pos = [i for i, y in enumerate(a.a[0]) if y == x]
                    want = {b >> i & 1 for i in pos}
                    if len(want) == 1 and all(y == (b >> i & 1) for i, y in enumerate(a.a[0]) if not isinstance(y, tuple)):
                        o = 1 - want.pop()
                        km, kv = st.kn.get(x[0], (0, 0))
                        if km >> x[1] & 1 and (kv >> x[1] & 1) != o: raise Infeasible()
                        if x[0].op != 'ptrbits': st.kn[x[0]] = (km | 1 << x[1], kv & ~(1 << x[1]) | o << x[1])
            if isinstance(b, int) and isinstance(a, E):
                if a.op == 'ptrbits': return
                self.assume_set(st, a, w, cmpset(pred, b, w))
            elif pred == 'eq' and isinstance(a, E) and isinstance(b, E):
                self.assume_set(st, a, w, self.interval(st, b, w))
                self.assume_set(st, b, w, self.interval(st, a, w))
        elif isinstance(c, E) and c.op == 'bits' and len(c.a[0]) == 1:
            b = c.a[0][0]
            if b[0].op == 'not':
                o = b[0].a[0]
                self.assume(st, mkbits((o,)), not truth)
            elif b[0].op == 'icmp': self.assume(st, b[0], truth)
            else: self.assume_set(st, c, 1, [(int(truth), int(truth))])
        elif isinstance(c, E):
            self.assume_set(st, c, 1, [(int(truth), int(truth))])

    def cond(self, st, v):
        """decide a 1-bit value: True/False or a term"""
        if v is True or v is False: return v
        if isinstance(v, int): return bool(v)
        if isinstance(v, E):
            f = st.facts.get(v)
            if f is not None: return f
            if v.op == 'not':
                o = v.a[0]
                c = self.cond(st, mkbits((o,)) if isinstance(o, tuple) else o)
                if c is True or c is False: return not c
                return v
            if v.op == 'icmp':
                return self.icmp(st, v.a[0], width(v.a[1], v.a[2]), v.a[1], v.a[2])
            if v.op == 'bits' and len(v.a[0]) == 1:
                b = v.a[0][0]
                if b in (0, 1): return bool(b)
                u, i = b
                if u.op == 'not':
                    c = self.cond(st, mkbits((u.a[0],)))
                    if c is True or c is False: return not c
                    if isinstance(c, E) and c.op == 'icmp': return mk('icmp', 1, NEG[c.a[0]], c.a[1], c.a[2])
                    return v
                r = self.simp(st, v)
                if isinstance(r, int): return bool(r)
            else:
                r = self.simp(st, v)
                if isinstance(r, int): return bool(r)
        return v

    # ---------------------------------------------------------------- operands
    def const(self, mod, ty, v):
        k, x = v
        if k == 'c': return x
        if k == 'f':
            import struct
            if isinstance(x, tuple): return mk('fconst', 80, 0)
            if ty.k == 'float':
                try: return mk('fconst', 32, struct.unpack('<I', struct.pack('<f', x))[0])
                except OverflowError: return mk('fconst', 32, 0x7f800000)
            return mk('fconst', 64, struct.unpack('<Q', struct.pack('<d', x))[0])
        if k == 'g':
            f = mod.funcs.get(x)
            if f is not None: return Fn(x, mod.name)
            g = self.prog.glob(x, mod)
            if g is None: g = mod.globals[x]
            return P(('g', g.mod.name, g.name), 0)
        if k == 'u': return fresh('undef', twidth(mod, ty))
        if k == 'z':
            t = mod.res(ty)
            if t.k == 'st': return [self.const(mod, e, v) for e in t.el]
            if t.k in ('arr', 'vec'): return [self.const(mod, t.el, v) for _ in range(t.n)]
            if t.k in ('float', 'double'): return mk('fconst', 32 if t.k == 'float' else 64, 0)
            return 0
        if k == 'agg': return [self.const(mod, t, e) for t, e in x]
        if k == 'cgep':
            bt, base, idx = x
            b = self.const(mod, None, base)
            return self.gep(None, mod, bt, b, [(t, self.const(mod, t, i)) for t, i in idx])
        if k == 'ccast':
            op, t, y, t2 = x
            val = self.const(mod, t, y)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return val
            return cast(op, val, t, t2)
        if k == 'm': return 0
        raise AnalysisError('const %r' % (v,))

    def ev(self, st, fr, ty, v):
        if v[0] == 'r':
            return fr.regs[v[1]]
        if v[0] == 'c': return v[1]
        return self.const(fr.f.mod, ty, v)

    def gep(self, st, mod, bt, base, idx):
        p = self.to_ptr(base)
        if p is None:
            p = P(('s', mk('null', 64, base if isinstance(base, int) else 0)), 0)
        off = p.off; cur = bt; first = True
        for t, i in idx:
            if st is not None: i = self.simp(st, i)
            if first:
                sz = mod.sizeof(cur); first = False
            else:
                r = mod.res(cur)
                if r.k == 'st':
                    off = addoff(off, mod.layout(cur)[0][i]); cur = r.el[i]
                    continue
                cur = r.el; sz = mod.sizeof(cur)
            if isinstance(i, int):
                off = addoff(off, sx(i, t.n) * sz if t.n else i * sz)
            else:
                x = sext(i, t.n, 64) if t.n < 64 else i
                off = binop('add', 64, binop('mul', 64, x, sz), off & M(64) if isinstance(off, int) else off)
        return P(p.obj, off)

    # ---------------------------------------------------------------- running
    def start(self, fname, args, st=None, mod=None, va=None):
        f = self.prog.func(fname, mod) if isinstance(fname, str) else fname
        if f is None: raise AnalysisError('anchor function %s not found' % fname)
        if st is None: st = State()
        self.push(st, f, args, None, va)
        return self.run([st])

    def push(self, st, f, args, retdst, va=None, call=None):
        if len(st.frames) >= self.maxdepth: raise Budget('call depth')
        fr = Frame(); fr.f = f; fr.blk = f.order[0]; fr.prev = None; fr.ip = 0; fr.visits = {}; fr.forks = {}
        fr.retdst = retdst; fr.va = va; fr.call = call
        fr.regs = {}
        for i, (t, nm) in enumerate(f.params):
            if i < len(args): fr.regs[nm] = args[i]
            else: fr.regs[nm] = fresh('arg', twidth(f.mod, t))
        st.frames.append(fr)
        self.fnseen.add((f.mod.name, f.name))

    def run(self, states):
        work = list(states); done = []
        self.npaths = 0
        while work:
            st = work.pop()
            try:
                new = self.step_path(st)
                if new is None: done.append(st)
                else: work.extend(new)
            except Infeasible:
                continue
            except Budget as e:
                st.kind = 'cut'; st.note = str(e); done.append(st)
            if len(done) + len(work) > self.maxpaths:
                for s in work:
                    s.kind = 'cut'; s.note = 'paths'
                return done + work
        return done

    def finish(self, st, kind, value=None, note=None):
        st.kind = kind; st.value = value; st.note = note
        return None

    def fork_on(self, st, c, key, cont):
        """partition on term c; cont(state, truth) prepares each side"""
        fr = st.frames[-1]
        n = fr.forks.get(key, 0) + 1
        if n > self.maxforks: raise Budget('partition bound at %s' % (key,))
        out = []
        s2 = st.fork()
        for s, truth in ((s2, False), (st, True)):
            try:
                self.assume(s, c, truth)
            except Infeasible:
                continue
            s.frames[-1].forks[key] = n
            cont(s, truth)
            out.append(s)
        return out

    def goto(self, st, fr, lab):
        fr.prev = fr.blk; fr.blk = lab; fr.ip = 0
        n = fr.visits.get(lab, 0) + 1
        fr.visits[lab] = n
        if n > self.maxvisits: raise Budget('loop bound')
        # phis in parallel
        b = fr.f.blocks[lab]
        vals = []
        for ins in b.ins:
            if ins.op != 'phi': break
            for v, l in ins.x:
                if l == fr.prev:
                    vals.append((ins.dst, self.ev(st, fr, ins.ty, v))); break
            fr.ip += 1
        for d, v in vals: fr.regs[d] = v

    def step_path(self, st):
        while True:
            fr = st.frames[-1]
            mod = fr.f.mod
            ins = fr.f.blocks[fr.blk].ins[fr.ip]
            st.steps += 1
            if st.steps > self.maxsteps: raise Budget('steps')
            op = ins.op
            if op == 'br':
                self.goto(st, fr, ins.x); continue
            if op == 'condbr':
                c = self.cond(st, self.ev(st, fr, ins.ty, ins.a[0]))
                if c is True or c is False:
                    self.goto(st, fr, ins.x[0 if c else 1]); continue
                def cont(s, truth, x=ins.x):
                    self.goto(s, s.frames[-1], x[0 if truth else 1])
                return self.fork_on(st, c, (fr.blk, fr.ip), cont)
            if op == 'switch':
                v = self.simp(st, self.ev(st, fr, ins.ty, ins.a[0]))
                if isinstance(v, int):
                    t = ins.x[0]
                    for k, l in ins.x[1]:
                        if k == v: t = l; break
                    self.goto(st, fr, t); continue
                # partition per target
                w = ins.ty.n
                groups = {}
                for k, l in ins.x[1]: groups.setdefault(l, []).append((k, k))
                alliv = inorm([(k, k) for k, _ in ins.x[1]])
                dflt = []
                pos = 0
                for a, b in alliv:
                    if pos < a: dflt.append((pos, a - 1))
                    pos = b + 1
                if pos <= M(w): dflt.append((pos, M(w)))
                groups.setdefault(ins.x[0], []).extend(dflt)
                key = (fr.blk, fr.ip)
                n = fr.forks.get(key, 0) + 1
                if n > self.maxforks: raise Budget('partition bound')
                out = []
                for l, iv in groups.items():
                    s = st.fork()
                    try: self.assume_set(s, v, w, inorm(iv))
                    except Infeasible: continue
                    s.frames[-1].forks[key] = n
                    self.goto(s, s.frames[-1], l); out.append(s)
                return out
            if op == 'ret':
                v = self.ev(st, fr, ins.ty, ins.a[0]) if ins.a else None
                st.frames.pop()
                if not st.frames:
                    return self.finish(st, 'ret', v)
                if fr.retdst: st.frames[-1].regs[fr.retdst] = v
                continue
            if op == 'unreachable':
                return self.finish(st, 'unreachable')
            if op == 'call':
                fr.ip += 1
                r = self.call(st, fr, ins)
                if r is None: continue
                return r if r != 'end' else None
            if op == 'select':
                c = self.cond(st, self.ev(st, fr, None, ins.a[0]))
                if c is True or c is False:
                    fr.regs[ins.dst] = self.ev(st, fr, ins.ty, ins.a[1 if c else 2]); fr.ip += 1; continue
                def cont2(s, truth, ins=ins):
                    f2 = s.frames[-1]
                    f2.regs[ins.dst] = self.ev(s, f2, ins.ty, ins.a[1 if truth else 2]); f2.ip += 1
                return self.fork_on(st, c, (fr.blk, fr.ip), cont2)
            fr.regs[ins.dst] = self.simple(st, fr, mod, ins)
            fr.ip += 1

    def simple(self, st, fr, mod, ins):
        op = ins.op
        ev = self.ev
        if op in INTOPS:
            a = ev(st, fr, ins.ty, ins.a[0]); b = ev(st, fr, ins.ty, ins.a[1])
            if ins.ty.k != 'i': return fresh('vec', 128)
            if st.rng:
                a = self.simp(st, a); b = self.simp(st, b)
            if a is True or a is False: a = int(a)
            if b is True or b is False: b = int(b)
            return binop(op, ins.ty.n, a, b)
        if op == 'icmp':
            a = ev(st, fr, ins.ty, ins.a[0]); b = ev(st, fr, ins.ty, ins.a[1])
            r = self.icmp(st, ins.x, ins.ty.n if ins.ty.k == 'i' else 64, a, b)
            return int(r) if r is True or r is False else r
        if op == 'load':
            p = ev(st, fr, None, ins.a[0])
            t = mod.res(ins.ty)
            if t.k in ('st', 'arr', 'vec'):
                return self.load_agg(st, mod, ins.ty, p)
            v = self.load(st, p, mod.sizeof(t))
            if t.k == 'i' and t.n % 8: v = trunc(v, mod.sizeof(t) * 8, t.n)
            return self.simp(st, v)
        if op == 'store':
            v = ev(st, fr, ins.ty, ins.a[0]); p = ev(st, fr, None, ins.a[1])
            t = mod.res(ins.ty)
            if t.k in ('st', 'arr', 'vec'):
                self.store_agg(st, mod, ins.ty, p, v); return None
            n = mod.sizeof(t)
            if t.k == 'i' and t.n % 8: v = zext(v, t.n, n * 8)
            self.store(st, p, n, v)
            return None
        if op == 'gep':
            base = ev(st, fr, None, ins.a[0])
            return self.gep(st, mod, ins.ty, base, [(t, ev(st, fr, t, i)) for t, i in ins.x])
        if op in CASTOPS:
            a = ev(st, fr, ins.x, ins.a[0])
            if op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                if op == 'ptrtoint' and ins.ty.n < 64: return trunc(a, 64, ins.ty.n)
                return a
            if st.rng: a = self.simp(st, a)
            return cast(op, a, ins.x, ins.ty)
        if op == 'alloca':
            st.nobj += 1
            o = ('a', fr.f.name, ins.dst[1:], st.nobj)
            st.mem[o] = Obj(('undef', o)); st.own.add(o)
            n = mod.sizeof(ins.ty)
            if ins.x is not None:
                c = ev(st, fr, ins.x[0], ins.x[1])
                n = n * c if isinstance(c, int) else None
            st.sizes[o] = n
            return P(o, 0)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = ev(st, fr, ins.ty, ins.a[0]); b = ev(st, fr, ins.ty, ins.a[1])
            return fop(op, fw(ins.ty), a, b)
        if op == 'fneg':
            a = ev(st, fr, ins.ty, ins.a[0])
            return fop('fneg', fw(ins.ty), a)
        if op == 'fcmp':
            a = ev(st, fr, ins.ty, ins.a[0]); b = ev(st, fr, ins.ty, ins.a[1])
            r = fcmp(ins.x, fw(ins.ty), a, b)
            if isinstance(r, bool): return int(r)
            f = st.facts.get(r)
            return int(f) if f is not None else r
        if op == 'freeze': return ev(st, fr, ins.ty, ins.a[0])
        if op == 'extractvalue':
            v = ev(st, fr, ins.ty, ins.a[0])
            for i in ins.x:
                if not isinstance(v, list): return fresh('xv', 64)
                v = v[i]
            return v
        if op == 'insertvalue':
            v = ev(st, fr, ins.ty, ins.a[0]); x = ev(st, fr, ins.x[1], ins.a[1])
            def put(v, idx, t):
                t = mod.res(t)
                if not isinstance(v, list):
                    n = len(t.el) if t.k == 'st' else t.n
                    v = [fresh('undef', 64) for _ in range(n)]
                v = list(v)
                if len(idx) == 1: v[idx[0]] = x
                else: v[idx[0]] = put(v[idx[0]], idx[1:], t.el[idx[0]] if t.k == 'st' else t.el)
                return v
            return put(v, ins.x[0], ins.ty)
        if op == 'va_arg':
            return fresh('vaarg', twidth(mod, ins.ty))
        return fresh('top', 128)

    def load_agg(self, st, mod, ty, p):
        t = mod.res(ty); p = self.to_ptr(p)
        if p is None: raise Infeasible()
        if t.k == 'st':
            return [self.load_agg(st, mod, e, P(p.obj, addoff(p.off, o))) for e, o in zip(t.el, mod.layout(ty)[0])]
        if t.k in ('arr', 'vec'):
            s = mod.sizeof(t.el)
            return [self.load_agg(st, mod, t.el, P(p.obj, addoff(p.off, i * s))) for i in range(t.n)]
        return self.load(st, p, mod.sizeof(t))

    def store_agg(self, st, mod, ty, p, v):
        t = mod.res(ty); p = self.to_ptr(p)
        if p is None: raise Infeasible()
        if t.k == 'st':
            for i, (e, o) in enumerate(zip(t.el, mod.layout(ty)[0])):
                self.store_agg(st, mod, e, P(p.obj, addoff(p.off, o)), v[i] if isinstance(v, list) else fresh('undef', 64))
        elif t.k in ('arr', 'vec'):
            s = mod.sizeof(t.el)
            for i in range(t.n):
                self.store_agg(st, mod, t.el, P(p.obj, addoff(p.off, i * s)), v[i] if isinstance(v, list) else fresh('undef', 64))
        else:
            self.store(st, p, mod.sizeof(t), v)

    def call(self, st, fr, ins):
        (callee, atys, fnty) = ins.x
        mod = fr.f.mod
        if callee[0] == 'g': name = callee[1]; target = Fn(name, mod.name)
        else:
            c = self.ev(st, fr, None, callee)
            if isinstance(c, Fn): target = c; name = c.name
            else: target = None; name = None
        if name is not None and name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name)
        args = [self.simp(st, self.ev(st, fr, t, a)) for t, a in zip(atys, ins.a)]
        if name is not None:
            h = self.hooks.get(name)
            if h is not None:
                r = h(self, st, ins, args)
                if r is not NOTHANDLED:
                    if isinstance(r, Outcome):
                        return r.apply(self, st, fr, ins)
                    if ins.dst: fr.regs[ins.dst] = r
                    return None
            f = self.prog.func(name, self.prog.mods[target.mod] if target.mod in self.prog.mods else mod)
            if f is not None and name not in self.opaque and not (self.opaque_pred and self.opaque_pred(f)):
                va = args[len(f.params):] if f.vararg else None
                self.push(st, f, args[:len(f.params)] if f.vararg else args, ins.dst, va, ins)
                return None
        # opaque
        st.trace.append(('call', name or '(*)', tuple(args), mod.where(ins)))
        if name is not None and ins_noreturn(fr, ins):
            self.finish(st, 'exit', (name, tuple(args))); st.site = mod.where(ins)
            return 'end'
        if name not in self.keepmem:
            for a in args:
                if isinstance(a, P): self.havoc(st, a)
        if ins.dst: fr.regs[ins.dst] = fresh('ret.%s' % name, twidth(mod, ins.ty))
        return None

    keepmem = frozenset()

    def intrinsic(self, st, fr, ins, name):
        mod = fr.f.mod
        atys = ins.x[1]
        args = [self.simp(st, self.ev(st, fr, t, a)) for t, a in zip(atys, ins.a)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
        elif name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
        elif name.startswith('llvm.va_start'):
            # System V va_list with every register slot used up: all variable arguments lie in the overflow area
            p = self.to_ptr(args[0])
            area = self.new_obj(st, 'va', 'sym')
            if fr.va is not None:
                for i, v in enumerate(fr.va):
                    self.store(st, P(area.obj, 8 * i), 8, v if not isinstance(v, E) or (v.w or 64) == 64 else
                               mkbits(bits(v, v.w) + bits(fresh('pad', 64), 64)[v.w:]) if v.w < 64 else v)
            self.store(st, P(p.obj, p.off), 4, 48); self.store(st, P(p.obj, p.off + 4), 4, 176)
            self.store(st, P(p.obj, p.off + 8), 8, area); self.store(st, P(p.obj, p.off + 16), 8, 0)
        elif name.startswith('llvm.va_copy'):
            self.memcpy(st, args[0], args[1], 24)
        elif name.startswith(('llvm.va_end', 'llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stack')):
            pass
        elif name.startswith('llvm.fabs'):
            fr.regs[ins.dst] = fop('fabs', fw(ins.ty), args[0])
        elif name.startswith('llvm.trap'):
            self.finish(st, 'exit', ('trap', ())); return 'end'
        elif name.startswith('llvm.expect'):
            fr.regs[ins.dst] = args[0]
        elif ins.dst:
            fr.regs[ins.dst] = mk('intr', twidth(mod, ins.ty), name, *[a for a in args if isinstance(a, (int, E))])
        return None

    def memset(self, st, d, v, n):
        p = self.to_ptr(d)
        if n == 0: return
        if p is None: raise Infeasible()
        if not isinstance(n, int) or not isinstance(p.off, int) or n > 1 << 20:
            self.havoc(st, d); return
        size = st.sizes.get(p.obj)
        if v == 0 and p.off == 0 and (size == n or n >= 256):
            o = Obj(('zero', p.obj)); st.mem[p.obj] = o; st.own.add(p.obj); return
        i = 0
        while i < n:
            k = 8 if v == 0 and (p.off + i) % 8 == 0 and n - i >= 8 else 4 if v == 0 and (p.off + i) % 4 == 0 and n - i >= 4 else 1
            self.store(st, P(p.obj, p.off + i), k, trunc(v, 32, 8) if not isinstance(v, int) else v & 0xFF if k == 1 else 0)
            i += k


def _old(a, b):
    """a fresh local object cannot be the target of a pointer that already existed as an unknown"""
    return True


def sset_range(a, b, fw_, w):
    h = 1 << (fw_ - 1); r = []
    if a < h: r.append((a, min(b, h - 1)))
    if b >= h: r.append((max(a, h) + M(w) - M(fw_), b + M(w) - M(fw_)))
    return r


def width(a, b):
    for x in (a, b):
        if isinstance(x, E) and x.w: return x.w
    return 64


def _icmp(pred, w, a, b):
    if pred == 'eq': return a == b
    if pred == 'ne': return a != b
    if pred[0] == 's': a = sx(a, w); b = sx(b, w)
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]


def addoff(off, k):
    if isinstance(off, int): return off + k
    return binop('add', 64, off, k & M(64))


INTOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTOPS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
           'bitcast', 'addrspacecast'}


def fw(t): return {'float': 32, 'double': 64, 'x86_fp80': 80}.get(t.k, 64)


def twidth(mod, t):
    if t is None or t.k == 'void': return 64
    if t.k == 'i': return t.n
    if t.k in ('float', 'double', 'x86_fp80'): return fw(t)
    if t.k == 'ptr': return 64
    try: return mod.sizeof(t) * 8
    except Exception: return 64


def cast(op, a, t, t2):
    if a is True or a is False: a = int(a)
    if op == 'zext': return zext(a, t.n, t2.n)
    if op == 'sext': return sext(a, t.n, t2.n)
    if op == 'trunc': return trunc(a, t.n, t2.n)
    w = t2.n if t2.k == 'i' else fw(t2)
    if op in ('fpext', 'fptrunc'):
        x = fval(a, fw(t))
        if x is not None and w in (32, 64): return fcon(w, x)
    if op in ('sitofp', 'uitofp') and isinstance(a, int) and w in (32, 64):
        return fcon(w, fround(sx(a, t.n) if op == 'sitofp' else a, w))
    if op in ('fptosi', 'fptoui'):
        x = fval(a, fw(t))
        if x is not None and x == x and abs(x) < 2.0 ** 70:
            i = int(x)
            if (-(1 << (w - 1)) <= i < 1 << (w - 1)) if op == 'fptosi' else 0 <= i < 1 << w: return i & M(w)
    return mk(op, w, a)


def fval(x, w=64):
    import struct
    if isinstance(x, int):
        if w == 64: return struct.unpack('<d', struct.pack('<Q', x & M(64)))[0]
        if w == 32: return struct.unpack('<f', struct.pack('<I', x & M(32)))[0]
        return None
    if isinstance(x, E) and x.op == 'fconst':
        if x.w == 64: return struct.unpack('<d', struct.pack('<Q', x.a[0]))[0]
        if x.w == 32: return struct.unpack('<f', struct.pack('<I', x.a[0]))[0]
    return None


def fcon(w, x):
    import struct
    if w == 64: return mk('fconst', 64, struct.unpack('<Q', struct.pack('<d', x))[0])
    try: return mk('fconst', 32, struct.unpack('<I', struct.pack('<f', x))[0])
    except OverflowError: return mk('fconst', 32, 0x7f800000 if x > 0 else 0xff800000)


def fround(x, w):
    """nearest floating value of an integer (single rounding)"""
    if w == 64 or abs(x) < 1 << 53: return float(x)
    k = abs(x).bit_length() - 24
    q, r = divmod(abs(x), 1 << k); h = 1 << (k - 1)
    if r > h or r == h and q & 1: q += 1
    return float(q << k) if x > 0 else -float(q << k)


def fop(op, w, *a):
    v = [fval(x, w) for x in a]
    if w in (32, 64) and None not in v and all(x == x and abs(x) != float('inf') for x in v):
        if op == 'fneg': return fcon(w, -v[0])
        x, y = v
        try:
            if op == 'fadd': return fcon(w, x + y)
            if op == 'fsub': return fcon(w, x - y)
            if op == 'fmul': return fcon(w, x * y)
            if op == 'fdiv' and y: return fcon(w, x / y)
        except OverflowError: pass
    return mk(op, w, *a)


def fcmp(pred, w, a, b):
    x, y = fval(a, w), fval(b, w)
    if x is not None and y is not None:
        un = x != x or y != y
        r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y, 'rd': not un, 'no': un}.get(pred[-2:])
        if pred == 'ord': return not un
        if pred == 'uno': return un
        if pred[0] == 'o': return r and not un
        return r or un
    return mk('fcmp', 1, pred, a, b)


def compute_mutable(mod):
    """names of globals that may be written in this module (store target, or address escapes to a call/store)"""
    mut = set()
    def base(v, regs):
        if v[0] == 'g': return {v[1]}
        if v[0] == 'cgep': return base(v[1][1], regs)
        if v[0] == 'ccast': return base(v[1][2], regs)
        if v[0] == 'r': return regs.get(v[1], set())
        return set()
    def isro(g):
        return g in mod.globals and mod.globals[g].const
    for f in mod.funcs.values():
        if f.decl: continue
        regs = {}
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                for i in b.ins:
                    s = None
                    if i.op in ('gep', 'bitcast', 'select', 'phi', 'freeze'):
                        s = set()
                        for v in (i.a if i.op != 'phi' else [v for v, _ in i.x]):
                            s |= base(v, regs)
                    if s and i.dst and not s <= regs.get(i.dst, set()):
                        regs.setdefault(i.dst, set()).update(s); ch = True
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'store':
                    mut |= base(i.a[1], regs); mut |= base(i.a[0], regs)
                elif i.op == 'call':
                    cal = i.x[0]
                    nm = cal[1] if cal[0] == 'g' else ''
                    for j, a in enumerate(i.a):
                        s = base(a, regs)
                        if s and nm.startswith('llvm.memcpy') and j == 1: continue
                        mut |= s
                elif i.op == 'ret' and i.a:
                    mut |= base(i.a[0], regs)
    return {g for g in mut if g in mod.globals and not mod.globals[g].const}


def ins_noreturn(fr, ins):
    b = ins.blk
    i = ins.idx + 1
    return i < len(b.ins) and b.ins[i].op == 'unreachable'


NOTHANDLED = object()


class Outcome:
    """result of a hook that ends or splits the path"""

    def __init__(self, fn): self.fn = fn

    def apply(self, eng, st, fr, ins): return self.fn(eng, st, fr, ins)


def Exit(name, args):
    def fn(eng, st, fr, ins):
        eng.finish(st, 'exit', (name, tuple(args))); st.site = fr.f.mod.where(ins)
        return 'end'
    return Outcome(fn)


def h_assert(eng, st, ins, args):
    s = eng.cstr(st, args[0])
    return Exit('assert', (s.decode() if s else '?',))


def h_exit(name):
    def h(eng, st, ins, args): return Exit(name, args)
    return h


def h_strlen(eng, st, ins, args):
    s = eng.cstr(st, args[0])
    return len(s) if s is not None else mk('strlen', 64, args[0]) if isinstance(args[0], (P, E)) else fresh('strlen', 64)


def h_strcmp(eng, st, ins, args):
    a = eng.cstr(st, args[0]); b = eng.cstr(st, args[1])
    if a is not None and b is not None: return 0 if a == b else 1 if a > b else M(32)
    if args[0] == args[1]: return 0
    return mk('strcmp', 32, args[0], args[1])


def h_strncmp(eng, st, ins, args):
    a = eng.cstr(st, args[0]); b = eng.cstr(st, args[1]); n = args[2]
    if a is not None and b is not None and isinstance(n, int):
        a, b = a[:n], b[:n]
        return 0 if a == b else 1 if a > b else M(32)
    return mk('strncmp', 32, *args)


def h_strchr(eng, st, ins, args):
    a = eng.cstr(st, args[0]); c = args[1]
    if a is not None and isinstance(c, int):
        i = (a + b'\0').find(bytes([c & 255]))
        if i < 0: return 0
        p = eng.to_ptr(args[0])
        return P(p.obj, p.off + i)
    if a is not None and isinstance(c, E):
        return mk('strchr', 64, a, c)
    return fresh('strchr', 64)


def h_memset(eng, st, ins, args):
    eng.memset(st, args[0], args[1], args[2]); return args[0]


def h_memcpy(eng, st, ins, args):
    eng.memcpy(st, args[0], args[1], args[2]); return args[0]


def h_alloc(tag, base, nonnull=True):
    def h(eng, st, ins, args):
        return eng.new_obj(st, tag, base)
    return h


DEFAULT_HOOKS = {
    '__assert_fail': h_assert, 'exit': h_exit('exit'), 'abort': h_exit('abort'),
    'strlen': h_strlen, 'strcmp': h_strcmp, 'strncmp': h_strncmp, 'strchr': h_strchr,
    'memset': h_memset, 'memcpy': h_memcpy, 'memmove': h_memcpy,
    'emalloc': h_alloc('malloc', 'undef'), 'ecalloc': h_alloc('calloc', 'zero'),
}
