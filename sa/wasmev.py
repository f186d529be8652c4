"""Abstract interpretation of emitted WebAssembly code: parameters, globals and memory are unknowns, values are terms in
a normal form (bit provenance for integers), so two computations of the same C value meet in the same term.

Conditions on unknowns are 1-bit terms.  A Run decides them through an oracle (a finite map term -> bool), so that
reference semantics and emitted code are compared on the same partition of the inputs."""
import struct
from absint import E, mk, sym, binop, zext, sext, trunc, bits, mkbits, M, sx, _key

NB = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64, 'v128': 128}


class Stuck(Exception):
    pass


# ------------------------------------------------------------------ normal form
def bnot(b):
    if b in (0, 1): return 1 - b
    u = b[0]
    if u.op == 'not': return u.a[0]
    return (mk('not', 1, b), 0)


def b2v(b, w=32): return mkbits((b,) + (0,) * (w - 1))


def isbool(v, w):
    """the bit of a value known to be 0 or 1, else None"""
    if isinstance(v, int): return v if v in (0, 1) else None
    bs = bits(v, w)
    return bs[0] if all(x == 0 for x in bs[1:]) else None


def cmpbit(pred, w, a, b):
    """bit of an integer comparison"""
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's': a = sx(a, w); b = sx(b, w)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
    if pred == 'ne': return bnot(cmpbit('eq', w, a, b))
    if pred in ('sgt', 'ugt'): return cmpbit(pred[0] + 'lt', w, b, a)
    if pred in ('sle', 'ule'): return bnot(cmpbit(pred[0] + 'lt', w, b, a))
    if pred in ('sge', 'uge'): return bnot(cmpbit(pred[0] + 'lt', w, a, b))
    if a is b or not isinstance(a, int) and not isinstance(b, int) and bits(a, w) == bits(b, w): return int(pred == 'eq')
    if pred == 'eq':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                while isinstance(x, E) and x.op == 'add' and x.w == w and isinstance(x.a[1], int): y = y - x.a[1] & M(w); x = x.a[0]
                if x is not a and x is not b: return cmpbit('eq', w, x, y)
                t = isbool(x, w)
                if t is not None: return t if y == 1 else bnot(t) if y == 0 else 0
        x, y = bits(a, w), bits(b, w)
        if any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(x, y)): return 0
        seen = {}
        for p, q in zip(x, y):
            if q in (0, 1) and p not in (0, 1) and seen.setdefault(p, q) != q: return 0
            if p in (0, 1) and q not in (0, 1) and seen.setdefault(q, p) != p: return 0
        # only the bits that are not known equal matter: drop equal tops
        n = w
        while n > 1 and (x[n - 1] == y[n - 1] and x[n - 1] in (0, 1) or x[n - 1] == x[n - 2] and y[n - 1] == y[n - 2]): n -= 1
        a, b = mkbits(x[:n]), mkbits(y[:n])
        if isinstance(a, int) or not isinstance(b, int) and b.id < a.id: a, b = b, a
        return (mk('eq', 1, a, b, n), 0)
    # lt: with both signs known clear, signed and unsigned agree; drop common extensions
    x, y = bits(a, w), bits(b, w)
    if x[-1] == 0 and y[-1] == 0: pred = 'ult'
    if pred == 'ult' and not isinstance(b, int) or not isinstance(a, int): pass
    if pred == 'ult':
        if b == 0: return 0
        if b == 1: return cmpbit('eq', w, a, 0)
        n = w
        while n > 1 and x[n - 1] == 0 and y[n - 1] == 0: n -= 1
        return (mk('ult', 1, mkbits(x[:n]), mkbits(y[:n]), n), 0)
    if b == 0 or isinstance(b, int) and b == 0: return x[-1] if x[-1] in (0, 1) else x[-1]
    n = w
    while n > 1 and x[n - 1] == x[n - 2] and y[n - 1] == y[n - 2]: n -= 1
    return (mk('slt', 1, mkbits(x[:n]), mkbits(y[:n]), n), 0)


def fcmpbit(pred, w, a, b):
    if pred == 'ne': return bnot(fcmpbit('eq', w, a, b))
    if pred == 'gt': return fcmpbit('lt', w, b, a)
    if pred == 'ge': return fcmpbit('le', w, b, a)
    if pred == 'eq' and _key(b) < _key(a): a, b = b, a
    return (mk('f' + pred, 1, a, b, w), 0)


def fconst(w, x): return mk('fconst', w, struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0])


def fop2(op, w, a, b):
    if op in ('add', 'mul') and _key(b) < _key(a): a, b = b, a
    return mk('f' + op, w, a, b)


def itof(w, v, vw, signed):
    """float of width w from an integer of vw bits"""
    v = (sext if signed else zext)(v, vw, 64) if vw < 64 else v
    if vw < 64 or signed: 
        if isinstance(v, int): return fconst(w, float(sx(v, 64)))
        return mk('sitof', w, v)
    if isinstance(v, int): return fconst(w, float(v))
    if bits(v, 64)[63] == 0: return mk('sitof', w, v)
    return mk('uitof', w, v)


def fpext(v):
    if isinstance(v, E) and v.op == 'fconst': return fconst(64, struct.unpack('<f', struct.pack('<I', v.a[0]))[0])
    # an integer exactly representable in float widens to the same integer
    if isinstance(v, E) and v.op == 'sitof' and sigbits(v.a[0]) <= 24: return mk('sitof', 64, v.a[0])
    return mk('fpext', 64, v)


def fptrunc(v):
    if isinstance(v, E) and v.op == 'fpext': return v.a[0]
    if isinstance(v, E) and v.op == 'fconst': return fconst(32, struct.unpack('<d', struct.pack('<Q', v.a[0]))[0])
    if isinstance(v, E) and v.op == 'sitof' and sigbits(v.a[0]) <= 53: return mk('sitof', 32, v.a[0])
    return mk('fptrunc', 32, v)


def sigbits(v):
    bs = bits(v, 64); n = 64
    while n > 1 and bs[n - 1] == bs[n - 2]: n -= 1
    return n


def fptoint(v, w): return trunc(mk('fpint', 64, v), 64, w)


def shift(op, w, a, c):
    m = binop('and', w, c, w - 1)
    if op == 'ashr' and bits(a, w)[-1] == 0: op = 'lshr'
    if isinstance(m, int): return binop(op, w, a, m)
    return mk(op, w, a, mkbits(bits(m, w)[:6 if w == 64 else 5]))


def idiv(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b: return binop(op, w, a, b)
    # non-negative operands: signed and unsigned agree
    if op[0] == 's' and bits(a, w)[-1] == 0 and bits(b, w)[-1] == 0: op = 'u' + op[1:]
    if isinstance(b, int) and b == 1: return a if op[1:] == 'div' else 0
    if op[0] == 's' and b == M(w): return binop('sub', w, 0, a) if op == 'sdiv' else 0      # the least value over -1 has no quotient
    if op[0] == 'u' and isinstance(b, int) and b and b & (b - 1) == 0:
        return binop('lshr', w, a, b.bit_length() - 1) if op == 'udiv' else binop('and', w, a, b - 1)
    return mk(op, w, a, b)


def ite(bit, w, a, b):
    if bit == 1: return a
    if bit == 0: return b
    if a is b or a == b: return a
    if bit[0].op == 'not': return ite(bnot(bit), w, b, a)
    if isinstance(a, int) and isinstance(b, int) and w <= 64:
        # bitwise: bits that agree stay constant
        x, y = bits(a, w), bits(b, w)
        return mkbits(tuple(p if p == q else bit if p == 1 else bnot(bit) for p, q in zip(x, y)))
    x, y = isbool(a, w) if w <= 64 else None, isbool(b, w) if w <= 64 else None
    if x is not None and y is not None: return b2v(bite(bit, x, y), w)
    return mk('ite', w, bit, a, b)


def bite(c, x, y):
    if x == y: return x
    if x == 1 and y == 0: return c
    if x == 0 and y == 1: return bnot(c)
    if c[0].op == 'not': return bite(bnot(c), y, x)
    return (mk('bite', 1, c, x, y), 0)


# ------------------------------------------------------------------ memory
class Mem:
    """writes as a hash-consed chain; an access is (address term, bytes)"""

    def __init__(self): self.chain = mk('mem0', 0); self.log = []; self.bools = set()

    def write(self, addr, n, v):
        self.chain = mk('wr', 0, self.chain, addr, n, v)
        self.log.append(('store', addr, n, v))

    def copy(self, d, s, n):
        self.log.append(('copy', d, s, n)); self.chain = mk('cp', 0, self.chain, d, s, n)

    def read(self, addr, n):
        c = self.chain
        while c.op == 'wr':
            a, k = c.a[1], c.a[2]
            if a is addr or a == addr:
                if k == n: return c.a[3]
                if k > n: return trunc(c.a[3], k * 8, n * 8)
                break
            d = binop('sub', 32, addr, a)
            if isinstance(d, int):
                d = sx(d, 32)
                if d >= k or d + n <= 0: c = c.a[0]; continue
                if d >= 0 and d + n <= k: return mkbits(bits(c.a[3], k * 8)[d * 8:(d + n) * 8])
            break
        v = mk('ld', n * 8, c, addr, n)
        if n == 1 and addr in self.bools: return mkbits(((v, 0),) + (0,) * 7)
        return v


LOADS = {}
for t, w in (('i32', 32), ('i64', 64)):
    LOADS[t + '.load'] = (w // 8, w, False)
    for k in (8, 16, 32):
        if k < w:
            LOADS['%s.load%d_s' % (t, k)] = (k // 8, w, True); LOADS['%s.load%d_u' % (t, k)] = (k // 8, w, False)
LOADS['f32.load'] = (4, 32, False); LOADS['f64.load'] = (8, 64, False); LOADS['v128.load'] = (16, 128, False)
STORES = {'i32.store': 4, 'i64.store': 8, 'f32.store': 4, 'f64.store': 8, 'v128.store': 16, 'i32.store8': 1, 'i32.store16': 2,
          'i64.store8': 1, 'i64.store16': 2, 'i64.store32': 4}
IB = {'add', 'sub', 'mul', 'and', 'or', 'xor'}
REL = {'eq': 'eq', 'ne': 'ne', 'lt_s': 'slt', 'lt_u': 'ult', 'gt_s': 'sgt', 'gt_u': 'ugt', 'le_s': 'sle', 'le_u': 'ule',
       'ge_s': 'sge', 'ge_u': 'uge'}


class Need(Exception):
    """a condition the oracle has not decided"""

    def __init__(self, bit): self.bit = bit


class Branch(Exception):
    def __init__(self, n): self.n = n


class Return(Exception):
    pass


class Oracle:
    def __init__(self, known=None): self.known = dict(known or {})

    def decide(self, bit):
        if bit in (0, 1): return bool(bit)
        if bit[0].op == 'not': return not self.decide(bit[0].a[0])
        if bit[0].op == 'bite':
            c, x, y = bit[0].a
            return self.decide(x if self.decide(c) else y)
        if bit in self.known: return self.known[bit]
        raise Need(bit)


def parse_body(body):
    """token list -> nested instruction list [(op, args, then, else)]"""
    pos = 0; n = len(body)

    def seq(stop):
        nonlocal pos
        out = []
        while pos < n:
            t = body[pos]
            if t in stop: return out
            pos += 1
            if t in ('block', 'loop', 'if'):
                lab = None; bt = []
                if pos < n and body[pos][0] == '$': lab = body[pos]; pos += 1
                while pos < n and body[pos] == '(' and body[pos + 1] == 'result':
                    bt.append(body[pos + 2]); pos += 4
                a = seq(('end', 'else')); b = []
                if pos < n and body[pos] == 'else':
                    pos += 1
                    if pos < n and body[pos] == lab: pos += 1
                    b = seq(('end',))
                if pos >= n: raise Stuck('block without end')
                pos += 1
                if pos < n and lab and body[pos] == lab: pos += 1
                out.append((t, (lab, bt), a, b)); continue
            args = []
            while pos < n and body[pos] not in ('end', 'else') and not is_op(body[pos]):
                if body[pos] == '(':
                    d = 0
                    while True:
                        if body[pos] == '(': d += 1
                        if body[pos] == ')': d -= 1
                        args.append(body[pos]); pos += 1
                        if d == 0: break
                else: args.append(body[pos]); pos += 1
            out.append((t, tuple(args), None, None))
        return out
    r = seq(())
    return r


OPS0 = None


def is_op(t):
    global OPS0
    if OPS0 is None:
        from oracle import wasm_opcodes as sp
        OPS0 = {m for m, _, _ in sp.all_instructions()} | {'block', 'loop', 'if', 'else', 'end', 'ref.data', 'select', 'ref.null'}
    return t in OPS0


class WasmRun:
    MAXSTEPS = 20000
    """one run of a function body under an oracle"""

    def __init__(self, func, args, oracle, calls=None, maxloop=8, mem=None, sigs=None):
        self.f = func; self.o = oracle; self.mem = mem or Mem(); self.stack = []; self.loc = {}
        self.types = {}; self.glob = {}; self.maxloop = maxloop; self.truncs = []; self.sigs = sigs or {}
        for (n, t), v in zip(func.params, args): self.loc[n] = v; self.types[n] = t
        for n, t in func.locals: self.loc[n] = 0 if t[0] == 'i' else mk('fconst', NB[t], 0) if t[0] == 'f' else mk('v0', 128); self.types[n] = t
        self.log = self.mem.log
        self.steps = 0

    def pop(self):
        if not self.stack: raise Stuck('stack underflow')
        return self.stack.pop()

    def popv(self, t):
        v, vt = self.pop()
        if vt != t: raise Stuck('operand of type %s where %s is needed' % (vt, t))
        return v

    def push(self, v, t): self.stack.append((v, t))

    def run(self):
        try:
            self.seq(parse_body(self.f.body), [None])
        except Return: pass
        except Branch: pass
        rs = []
        for t in reversed(self.f.results): rs.append(self.popv(t))
        return list(reversed(rs))

    def seq(self, code, labels):
        for ins in code: self.ins(ins, labels)

    def block(self, kind, lab, bt, code, labels):
        base = len(self.stack); n = 0
        while True:
            try:
                self.seq(code, [lab] + labels)
                if len(self.stack) != base + len(bt): raise Stuck('block leaves %d values, declares %d' % (len(self.stack) - base, len(bt)))
                for (v, t), d in zip(self.stack[base:], bt):
                    if t != d: raise Stuck('block result has type %s, declared %s' % (t, d))
                return
            except Branch as b:
                if b.n: raise Branch(b.n - 1)
                if kind == 'loop':
                    del self.stack[base:]
                    n += 1
                    if n > self.maxloop: raise Stuck('loop bound')
                    continue
                vals = self.stack[len(self.stack) - len(bt):] if bt else []
                del self.stack[base:]
                self.stack += vals
                return

    def depth(self, a, labels):
        if a[0] == '$':
            if a not in labels: raise Stuck('branch to unknown label %s' % a)
            return labels.index(a)
        return int(a)

    def ins(self, ins, labels):
        op, args, a, b = ins
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Stuck('step bound')
        if op in ('block', 'loop'): self.block(op, args[0], args[1], a, labels); return
        if op == 'if':
            c = cmpbit('ne', 32, self.popv('i32'), 0)
            lab, bt = args
            if c not in (0, 1) and bt and len(bt) == 1:
                r = self.pure_if(c, bt[0], a, b, labels)
                if r is not None: self.push(r, bt[0]); return
            self.block('block', lab, bt, a if self.o.decide(c) else b, labels); return
        if op == 'br': raise Branch(self.depth(args[0], labels))
        if op == 'br_if':
            c = cmpbit('ne', 32, self.popv('i32'), 0)
            if self.o.decide(c): raise Branch(self.depth(args[0], labels))
            return
        if op == 'br_table':
            v = self.popv('i32')
            for i, l in enumerate(args[:-1]):
                if self.o.decide(cmpbit('eq', 32, v, i)): raise Branch(self.depth(l, labels))
            raise Branch(self.depth(args[-1], labels))
        if op == 'return': raise Return()
        if op == 'unreachable': raise Stuck('unreachable')
        if op == 'nop': return
        if op == 'drop': self.pop(); return
        if op == 'select':
            c = cmpbit('ne', 32, self.popv('i32'), 0)
            (y, t2), (x, t1) = self.pop(), self.pop()
            if t1 != t2: raise Stuck('select of %s and %s' % (t1, t2))
            self.push(ite(c, NB[t1], x, y), t1); return
        if op in ('local.get', 'local.set', 'local.tee'):
            n = args[0]
            if n not in self.types: raise Stuck('unknown local %s' % n)
            if op == 'local.get': self.push(self.loc[n], self.types[n])
            else:
                v = self.popv(self.types[n]); self.loc[n] = v
                if op == 'local.tee': self.push(v, self.types[n])
            return
        if op == 'global.get':
            self.push(self.glob.setdefault(args[0], sym('g:' + args[0], NB[self.gtype(args[0])])), self.gtype(args[0])); return
        if op == 'global.set':
            v = self.popv(self.gtype(args[0])); self.glob[args[0]] = v; self.log.append(('gset', args[0], v)); return
        if op.endswith('.const'):
            t = op[:3] if op[0] != 'v' else 'v128'
            if t[0] == 'i': self.push(int(args[0], 0) & M(NB[t]), t)
            elif t[0] == 'f': self.push(fconst(NB[t], pfloat(args[0])), t)
            else: self.push(mk('vconst', 128, args), t)
            return
        if op == 'ref.data':
            off = 0
            s = sym('&' + args[0], 32)
            self.push(binop('add', 32, s, int(args[1], 0) & M(32)) if len(args) > 1 else s, 'i32'); return
        if op == 'ref.func': self.push(sym('fn' + args[0], 32), 'i32'); return
        if op in LOADS or op in STORES:
            off = 0
            for x in args:
                if x.startswith('offset='): off = int(x[7:], 0)
            if op in LOADS:
                n, w, sg = LOADS[op]; ad = binop('add', 32, self.popv('i32'), off)
                v = self.mem.read(ad, n); t = op.split('.')[0]
                if t[0] == 'i' and n * 8 < w: v = (sext if sg else zext)(v, n * 8, w)
                self.push(v, t)
            else:
                n = STORES[op]; t = op.split('.')[0]; v = self.popv(t); ad = binop('add', 32, self.popv('i32'), off)
                if t[0] == 'i' and n * 8 < NB[t]: v = trunc(v, NB[t], n * 8)
                self.mem.write(ad, n, v)
            return
        if op == 'memory.copy':
            n = self.popv('i32'); s = self.popv('i32'); d = self.popv('i32')
            self.mem.copy(d, s, n); return
        if op == 'call':
            ps, rs = self.sig(args[0])
            av = [self.popv(t) for t in reversed(ps)][::-1]
            self.docall(args[0], av, rs); return
        if op == 'call_indirect':
            ps, rs = parse_sig(args); fn = self.popv('i32')
            av = [self.popv(t) for t in reversed(ps)][::-1]
            self.docall(fn, av, rs); return
        t, o = op.split('.', 1)
        self.num(t, o, op)

    def docall(self, fn, av, rs):
        k = sum(1 for e in self.log if e[0] == 'call')
        self.log.append(('call', fn, tuple(av)))
        self.mem.chain = mk('called', 0, self.mem.chain, k)
        for t in rs: self.push(self.retval(fn, k, t), t)

    def retval(self, fn, k, t): return sym('ret%d' % k, NB[t])

    def sig(self, name):
        if name not in self.sigs: raise Stuck('unknown function %s' % name)
        return self.sigs[name]

    gtypes = {}

    def gtype(self, n): return self.gtypes.get(n, 'i32')

    def pure_if(self, c, t, a, b, labels):
        """value of an if whose arms have no effect, as a term"""
        vals = []
        for arm in (a, b):
            st = list(self.stack); lc = dict(self.loc); ch = self.mem.chain; nl = len(self.log); gl = dict(self.glob); nt = len(self.truncs)
            ok = None
            try:
                self.block('block', None, [t], arm, labels)
                v = self.pop()[0]
                if self.loc == lc and self.mem.chain is ch and len(self.log) == nl and len(self.truncs) == nt: ok = v
            except (Need, Branch, Return): pass
            self.stack = st; self.loc = lc; self.mem.chain = ch; del self.log[nl:]; self.glob = gl; del self.truncs[nt:]
            if ok is None: return None
            vals.append(ok)
        return ite(c, NB[t], *vals)

    def num(self, t, o, op):
        w = NB.get(t, 0)
        if t in ('i32', 'i64'):
            if o == 'eqz': self.push(b2v(cmpbit('eq', w, self.popv(t), 0)), 'i32'); return
            if o in REL: y = self.popv(t); x = self.popv(t); self.push(b2v(cmpbit(REL[o], w, x, y)), 'i32'); return
            if o in IB: y = self.popv(t); x = self.popv(t); self.push(binop(o, w, x, y), t); return
            if o in ('div_s', 'div_u', 'rem_s', 'rem_u'):
                y = self.popv(t); x = self.popv(t); self.push(idiv(o[-1] + o[:3], w, x, y), t); return
            if o in ('shl', 'shr_s', 'shr_u'):
                y = self.popv(t); x = self.popv(t); self.push(shift({'shl': 'shl', 'shr_s': 'ashr', 'shr_u': 'lshr'}[o], w, x, y), t); return
            if o in ('rotl', 'rotr'):
                y = self.popv(t); x = self.popv(t); self.push(mk(o, w, x, y), t); return
            if o in ('clz', 'ctz', 'popcnt'): self.push(mk(o, w, self.popv(t)), t); return
            if o == 'wrap_i64': self.push(trunc(self.popv('i64'), 64, 32), t); return
            if o == 'extend_i32_s': self.push(sext(self.popv('i32'), 32, 64), t); return
            if o == 'extend_i32_u': self.push(zext(self.popv('i32'), 32, 64), t); return
            if o.startswith('extend'):
                k = int(o[6:-2]); self.push(sext(trunc(self.popv(t), w, k), k, w), t); return
            if o.startswith('trunc_f') or o.startswith('trunc_sat_f'):
                src = 'f64' if 'f64' in o else 'f32'; v = self.popv(src); u = o.endswith('_u')
                self.truncs.append((v, 0 if u else -(1 << (w - 1)), (1 << w) - 1 if u else (1 << (w - 1)) - 1))
                self.push(fptoint(v, w), t); return
            if o.startswith('reinterpret'): self.push(mk('fbits', w, self.popv('f%d' % w)), t); return
        if t in ('f32', 'f64'):
            if o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'): y = self.popv(t); x = self.popv(t); self.push(b2v(fcmpbit(o, w, x, y)), 'i32'); return
            if o in ('add', 'sub', 'mul', 'div'): y = self.popv(t); x = self.popv(t); self.push(fop2(o, w, x, y), t); return
            if o in ('min', 'max', 'copysign'): y = self.popv(t); x = self.popv(t); self.push(mk('f' + o, w, x, y), t); return
            if o in ('neg', 'abs', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt'): self.push(mk('f' + o, w, self.popv(t)), t); return
            if o.startswith('convert_i'):
                vw = int(o[9:11]); self.push(itof(w, self.popv('i%d' % vw), vw, o.endswith('_s')), t); return
            if o == 'promote_f32': self.push(fpext(self.popv('f32')), t); return
            if o == 'demote_f64': self.push(fptrunc(self.popv('f64')), t); return
            if o.startswith('reinterpret'): self.push(mk('bitsf', w, self.popv('i%d' % w)), t); return
        raise Stuck('instruction %s is not modelled' % op)


def parse_sig(args):
    ps = []; rs = []; i = 0; a = list(args)
    while i < len(a):
        if a[i] == '(' and a[i + 1] in ('param', 'result'):
            j = i + 2
            while a[j] != ')':
                if a[j][0] != '$': (ps if a[i + 1] == 'param' else rs).append(a[j])
                j += 1
            i = j
        i += 1
    return ps, rs


def pfloat(s):
    t = s.replace('_', '')
    if 'nan' in t: return float('nan')
    if 'inf' in t: return float('-inf') if t[0] == '-' else float('inf')
    if '0x' in t.lower(): return float.fromhex(t)
    return float(t)
