"""Constant expressions: arithmetic_eval is analysed on expressions whose operand values are unknown, and must give the
type and, for every operand value, the value C prescribes; static initialisers must put the bytes of that value in place."""
from emit import *
from csem import struct as struct_of
import wcmp
from wcmp import same, Diff, Undecided
from absint import State
from model import *
from cc import *
import struct, re
LEVEL = 'other'
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '~', '!']
DRV = ('fold.c',)


# ---------------------------------------------------------------- terms of the compiler -> normal form of values
class Norm:
    def __init__(self): self.m = {}

    def v(self, x):
        if not isinstance(x, E): return x if isinstance(x, int) else (1 if x is True else 0 if x is False else self.bad(x))
        r = self.m.get(x.id)
        if r is None: r = self.m[x.id] = (self.n(x),)
        return r[0]

    def bad(self, x): raise Undecided('term %s' % (x,))

    def bit(self, b):
        if b in (0, 1): return b
        u, i = b
        if u.op == 'not': return bnot(self.bit(u.a[0]) if isinstance(u.a[0], tuple) else bits(self.v(u.a[0]), 1)[0])
        x = self.v(u)
        return x >> i & 1 if isinstance(x, int) else bits(x, u.w)[i]

    def low(self, x, w, n):
        """the low n bits of a term of width w"""
        if isinstance(x, int): return x & M(n)
        if isinstance(x, E) and x.op == 'add': return self.add(n, self.low(x.a[0], w, n), self.low(x.a[1], w, n))
        if isinstance(x, E) and x.op in ('sub', 'mul'): return binop(x.op, n, self.low(x.a[0], w, n), self.low(x.a[1], w, n))
        if isinstance(x, E) and x.op in ('and', 'or', 'xor'): return binop(x.op, n, self.low(x.a[0], w, n), self.low(x.a[1], w, n))
        if isinstance(x, E) and x.op == 'shl' and n == 32 and w == 64:
            c = self.v(x.a[1])
            if not isinstance(c, int) and all(q == 0 for q in bits(c, w)[5:]): return shift('shl', 32, self.low(x.a[0], w, 32), trunc(c, w, 32))
        if isinstance(x, E) and x.op in ('sdiv', 'srem', 'udiv', 'urem', 'ashr', 'lshr') and n <= 32 and w == 64:
            a, b = self.v(x.a[0]), self.v(x.a[1]); p, q = bits(a, w), bits(b, w)
            if x.op in ('ashr', 'lshr'):
                if all(k == 0 for k in q[5:]):
                    if x.op == 'ashr' and all(k == p[31] for k in p[32:]) or x.op == 'lshr' and all(k == 0 for k in p[32:]):
                        return trunc(shift(x.op, 32, trunc(a, w, 32), trunc(b, w, 32)), 32, n)
            elif x.op[0] == 's' and all(k == p[31] for k in p[32:]) and all(k == q[31] for k in q[32:]) or x.op[0] == 'u' and all(k == 0 for k in p[32:]) and all(k == 0 for k in q[32:]):
                return trunc(idiv(x.op, 32, trunc(a, w, 32), trunc(b, w, 32)), 32, n)
        if isinstance(x, E) and x.op == 'bits': return self.bl(x.a[0][:n])
        return trunc(self.v(x), w, n)

    def bl(self, bs):
        out = []; i = 0

        def prov(b):
            """(word, bit, inverted) a bit comes from"""
            if not isinstance(b, tuple): return None
            u, k = b
            if u.op == 'not' and isinstance(u.a[0], tuple):
                r = prov(u.a[0])
                return r and (r[0], r[1], 1 - r[2])
            if not u.w or u.w == 1 or u.op in ('sym', 'icmp', 'fcmp'): return None
            return u, k, 0
        ps = [prov(b) for b in bs]
        while i < len(bs):
            p = ps[i]
            if p and p[1] == 0:
                n = 1
                while i + n < len(bs) and ps[i + n] and ps[i + n][0] is p[0] and ps[i + n][1] == n: n += 1
                lo = bits(self.low(p[0], p[0].w, n), n)
                out += [bnot(q) if ps[i + j][2] else q for j, q in enumerate(lo)]; i += n
                # a sign extension of that part
                while i < len(bs) and ps[i] and ps[i][0] is p[0] and ps[i][1] == n - 1: out.append(bnot(lo[-1]) if ps[i][2] else lo[-1]); i += 1
                continue
            out.append(self.bit(bs[i])); i += 1
        return mkbits(tuple(out))

    def n(self, x):
        op, w, a = x.op, x.w, x.a
        if op in ('sym', 'fconst'): return x
        if op == 'bits': return self.bl(a[0])
        if op == 'icmp':
            p, q = a[1], a[2]; ww = [k.w for k in (p, q) if isinstance(k, E)][0]
            return mkbits((cmpbit(a[0], ww, self.v(p), self.v(q)),))
        if op == 'fcmp':
            p, q = self.v(a[1]), self.v(a[2]); ww = [k.w for k in (p, q) if isinstance(k, E)][0]
            q = q if isinstance(q, E) else mk('fconst', ww, q); p = p if isinstance(p, E) else mk('fconst', ww, p)
            pr = a[0]
            if pr in ('une', 'oeq', 'olt', 'ole', 'ogt', 'oge'): return mkbits((fcmpbit({'une': 'ne'}.get(pr, pr[1:]), ww, p, q),))
            self.bad(x)
        if op == 'not': return mkbits((bnot(self.bit(a[0])),)) if isinstance(a[0], tuple) else mkbits((bnot(bits(self.v(a[0]), 1)[0]),))
        if op in ('sitofp', 'uitofp'):
            y = a[0]; ww = y.w if isinstance(y, E) else 64
            return itof(w, self.v(y), ww, op == 'sitofp')
        if op in ('fptosi', 'fptoui'): return fptoint(self.f(a[0], x), w)
        if op == 'fpext': return fpext(self.f(a[0], x))
        if op == 'fptrunc': return fptrunc(self.f(a[0], x))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop2(op[1:], w, self.f(a[0], x), self.f(a[1], x))
        if op == 'fneg': return mk('fneg', w, self.v(a[0]))
        if op == 'sub' and isinstance(a[1], int): return self.add(w, self.v(a[0]), -a[1] & M(w))
        if op == 'add': return self.add(w, self.v(a[0]), self.v(a[1]))
        if op in ('sub', 'mul', 'and', 'or', 'xor'): return binop(op, w, self.v(a[0]), self.v(a[1]))
        if op in ('shl', 'lshr', 'ashr'): return shift(op, w, self.v(a[0]), self.v(a[1]))
        if op in ('sdiv', 'udiv', 'srem', 'urem'): return idiv(op, w, self.v(a[0]), self.v(a[1]))
        self.bad(x)

    def add(self, w, a, b):
        # ((x & mask) ^ sign) - sign is the sign extension of the low bits of x
        if isinstance(b, int) and not isinstance(a, int):
            n = (-b & M(w)).bit_length(); p = bits(a, w)
            if n and -b & M(w) == 1 << n - 1 and all(q == 0 for q in p[n:]): return sext(mkbits(p[:n - 1] + (bnot(p[n - 1]),)), n, w)
        return binop('add', w, a, b)

    def f(self, y, x):
        y = self.v(y)
        return y if isinstance(y, E) else mk('fconst', {'fpext': 32, 'fptrunc': 64}.get(x.op, x.w), y)


def facts(st, N):
    """what a path assumes, as decided condition bits"""
    k = {}
    for c, v in st.facts.items():
        if not isinstance(c, E) or c.op not in ('icmp', 'fcmp', 'bits', 'not'): continue
        b = bits(N.v(c), 1)[0]
        v = bool(v)
        while b not in (0, 1) and b[0].op == 'not': b = b[0].a[0]; v = not v
        if b in (0, 1):
            if bool(b) != v: return None
            continue
        k[b] = v
    return k


class Orc(Oracle):
    pass


def want(expr, types, known=None):
    env = Env(wcmp.SmartOracle(known or {}), Mem()); env.types = types
    for n, t in types.items(): env.vars[n] = sym('p:' + n, t.w)
    v, t = expr.ev(env)
    return v, t, env.truncs


def src(t): return DOUBLE if t.isfloat() else LLONG


def judge1(c, rule, key, kind, op, ts, expr):
    en, st0 = engine_for(DRV, maxforks=14, maxpaths=200)
    st = st0.fork()
    res = en.new_obj(st, 'res', 'zero', 8)
    a = [kind, OPS.index(op) if op else 0]
    names = 'xyz'
    for i in range(3):
        t = ts[i] if i < len(ts) else INT
        a += [SCALARS.index(t), int(t.isfloat()), sym('p:' + names[i], 64)]
    types = {names[i]: src(t) for i, t in enumerate(ts)}
    rs = en.start('drv_fold', a + [res], st)
    where = 'c.c:arithmetic_eval'; some = False; und = None
    for s in rs:
        if s.kind == 'cut': c.undecided(rule, key, s.note); return
        N = Norm()
        try:
            known = facts(s, N)
            if known is None: continue
            if s.kind in ('exit', 'unreachable'):
                c.ob(rule, key, False, 'the evaluation of the constant expression %s stops (%s)' % (expr.c(), s.value), s.site or where); return
            r = s.value
            if not isinstance(r, int): c.undecided(rule, key, 'type %s' % r); return
            r = sx(r & M(32), 32)
            if r == -1:
                if op not in ('/', '%') and not (kind == 2 and any(t.isfloat() for t in ts)):
                    c.ob(rule, key, False, 'the constant expression %s is not evaluated' % expr.c(), where); return
                continue
            got = N.v(en.load(s, res, 8))
            while True:
                try: v, t, tr = want(expr, types, known); break
                except Need as e: c.undecided(rule, key, 'reference needs %s' % (e.bit,)); return
            if r < 0 or SCALARS[r] is not t:
                c.ob(rule, key, False, 'the constant expression %s has type %s' % (expr.c(), SCALARS[r] if 0 <= r < 13 else r), where, t.name, str(SCALARS[r]) if r >= 0 else r); return
            if t.isfloat(): g = trunc(got, 64, 32) if t.w == 32 and isinstance(got, (int, E)) else got; e = v
            else: e = (sext if t.signed else zext)(v, t.w, 64) if t.w < 64 else v; g = got
            if t.isfloat() and isinstance(g, int): g = mk('fconst', t.w, g)
            memo = {}
            for f, lo, hi in tr:
                n = (hi - lo).bit_length()
                if n >= 64: continue
                F = fptoint(f, 64)
                if not isinstance(F, int): memo[F.id] = ((sext if lo < 0 else zext)(sym('int:%d' % F.id, n), n, 64),)
            if memo: e = wcmp.subst(e, {}, memo); g = wcmp.subst(g, {}, memo)
            if tr: c.assume('a floating value converted to an integer type in a constant expression is in the range of the type')
            same(e, g, known, (), [40])
            some = True
        except Diff as d: c.ob(rule, key, False, 'constant expression %s: %s' % (expr.c(), d.what), where, d.exp, d.got); return
        except (Undecided, Stuck) as e: und = e
    if und: c.undecided(rule, key, und)
    elif some: c.ob(rule, key, True)
    else: c.undecided(rule, key, 'never evaluated')


def X(i, t): return Cast(t, Var('xyz'[i])) if src(t) is not t else Var('xyz'[i])


def exprs(tier):
    for s in SCALARS:
        for t in SCALARS: yield 'cast', '%s:%s' % (s, t), 0, None, [s, t], Cast(t, X(0, s))
        for op in ('+', '-', '~', '!'):
            if op == '~' and s.isfloat(): continue
            yield 'unary', '%s%s' % (op, s), 1, op, [s], Un(op, X(0, s))
        for t in SCALARS:
            for op in OPS[:16]:
                if (s.isfloat() or t.isfloat()) and op in ('%', '&', '|', '^', '<<', '>>'): continue
                yield 'binary', '%s:%s:%s' % (s, op, t), 2, op, [s, t], Bin(op, X(0, s), X(1, t))
            yield 'conditional', 'int:%s:%s' % (s, t), 3, None, [INT, s, t], Cond(X(0, INT), X(1, s), X(2, t))
        yield 'conditional', '%s:int:int' % s, 3, None, [s, INT, INT], Cond(X(0, s), X(1, INT), X(2, INT))


def task(c, l):
    for rule, key, kind, op, ts, e in l: judge1(c, rule, key.replace(' ', '.'), kind, op, ts, e)


# ---------------------------------------------------------------- static initialisers
def datas(txt):
    """{name: (bytes, align, {offset: (kind, name)})} of the data objects, {name: (type, tokens)} of the globals"""
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[()]|[^\s()]+', re.sub(r'\(;.*?;\)', ' ', txt))
    D = {}; G = {}; i = 0
    while i < len(toks):
        if toks[i] == '(' and i + 1 < len(toks) and toks[i + 1] in ('data', 'global') and toks[i + 2][0] == '$':
            k = toks[i + 1]; nm = toks[i + 2].split(':', 1)[-1]; i += 3; d = 1; body = []
            while d:
                if toks[i] == '(': d += 1
                elif toks[i] == ')': d -= 1
                if d: body.append(toks[i])
                i += 1
            if k == 'global': G[nm] = body; continue
            while '(' in body and body[body.index('(') + 1] == 'export': j = body.index('('); del body[j:j + 4]
            b = b''; al = 1; rel = {}; j = 0; last = None
            while j < len(body):
                t = body[j]
                if t.startswith('align='): al = int(t[6:])
                elif t.startswith('size='): b += bytes(int(t[5:]))
                elif t[0] == '"': b += unesc(t[1:-1])
                elif t in ('ref.data', 'ref.func'): last = (t, body[j + 1].split(':', 1)[-1]); j += 1
                elif t == 'data.put_ref': rel[int(body[j + 1].split('=')[1], 0)] = last; j += 1
                j += 1
            D[nm] = (b, al, rel)
        else: i += 1
    return D, G


ESC = {'t': 9, 'n': 10, 'r': 13, '"': 34, "'": 39, '\\': 92}


def unesc(s):
    o = bytearray(); i = 0
    while i < len(s):
        if s[i] != '\\': o += s[i].encode('latin-1'); i += 1
        elif s[i + 1] in ESC: o.append(ESC[s[i + 1]]); i += 2
        else: o.append(int(s[i + 1:i + 3], 16)); i += 3
    return bytes(o)


def fbytes(t, x): return struct.pack('<f' if t.w == 32 else '<d', x)


def vals(t):
    """(source text, bytes) of initialisers of a scalar type"""
    if t.kind == 'bool': return [('true', b'\1'), ('false', b'\0'), ('1==1', b'\1')]
    if t.isfloat():
        l = [('1.5', 1.5), ('-0.25', -.25), ('3', 3.0), ('-7LL', -7.0), ('0.5f', .5), ('16777216', 16777216.0), ('1e10f' if t.w == 32 else '1e10', 1e10), ('200u', 200.0)]
        return [(s, fbytes(t, struct.unpack('<f', struct.pack('<f', v))[0] if s[-1] == 'f' else v)) for s, v in l]
    lo, hi = (-(1 << t.w - 1), (1 << t.w - 1) - 1) if t.signed else (0, (1 << t.w) - 1)
    sf = ('LL' if t.w == 64 else '') if t.signed else ('ULL' if t.w == 64 else 'U')
    l = [0, 1, hi, lo, hi - 1, lo + 1, 0x1122334455667788 & hi, 0x0102030405060708 & hi, 100]
    if t.signed: l += [-1, -100, -(0x1122334455667788 & hi)]

    def s(v): return '%d%s' % (v, sf) if v > lo or lo == 0 else '-%d%s-1' % (-v - 1, sf)
    out = [(s(v), (v & M(t.w)).to_bytes(t.w // 8, 'little')) for v in l]
    out += [(x, (v & M(t.w)).to_bytes(t.w // 8, 'little')) for x, v in (("'A'", 65), ('5LL', 5), ('7u', 7), ('(char)9', 9), ('2.0', 2), ('sizeof(int)', 4))]
    return out


def srcval(t, i):
    v = vals(t)
    return v[i % len(v)]


class Init:
    """an object with an initialiser: declaration text, expected bytes and references"""

    def __init__(self, name, t, text, data, rel=(), pre=''): self.name = name; self.t = t; self.text = text; self.data = data; self.rel = dict(rel); self.pre = pre

    def src(self): return self.pre + self.t.decl(self.name) + (' = ' + self.text if self.text is not None else '') + ';\n'


def build(t, k):
    """an initialiser of an aggregate: (text, bytes)"""
    if t.kind == 'array':
        n = t.n if k % 3 else max(1, t.n - 1)              # the rest of an array is zero
        l = [build(t.sub, k + i + 1) for i in range(n)]
        return '{ %s }' % ', '.join(x for x, b in l), b''.join(b for x, b in l).ljust(t.size, b'\0')
    if t.kind == 'struct':
        fs = t.fields[:1] if t.name.startswith('union') else t.fields
        b = bytearray(t.size); l = []
        for i, (n, ft, off) in enumerate(fs):
            x, d = build(ft, k + i); b[off:off + len(d)] = d; l.append(x)
        return '{ %s }' % ', '.join(l), bytes(b)
    return srcval(t, k)


def inits():
    """[(pre, [Init])] per compilation"""
    out = []
    for t in SCALARS:
        for i, (s, b) in enumerate(vals(t)): out.append(('init.scalar', Init('g', t, s, b)))
        out.append(('init.scalar', Init('g', t, None, bytes(t.size))))
        for n in (1, 4):
            x, b = build(array(t, n), 1 + n % 2); out.append(('init.array', Init('g', array(t, n), x, b)))
        nv = len(vals(t)); x = '{ %s }' % ', '.join(s for s, b in vals(t)); out.append(('init.array', Init('g', array(t, nv), x, b''.join(b for s, b in vals(t)))))
        x = '{ %s }' % srcval(t, 2)[0]; out.append(('init.array', Init('g', array(t, 3), x, srcval(t, 2)[1].ljust(3 * t.size, b'\0'))))
        out.append(('init.array', Init('g', array(t, 5), None, bytes(5 * t.size))))
        out.append(('init.array', Init('g', array(array(t, 2), 3), *build(array(array(t, 2), 3), 1))))
        out.append(('init.array', Init('g', array(array(t, 3), 2), '{ { %s }, { %s, %s } }' % (srcval(t, 1)[0], srcval(t, 2)[0], srcval(t, 0)[0]),
            srcval(t, 1)[1].ljust(3 * t.size, b'\0') + (srcval(t, 2)[1] + srcval(t, 0)[1]).ljust(3 * t.size, b'\0'))))
    for i, a in enumerate(SCALARS):
        for j, b in enumerate(SCALARS):
            s = struct_('A', [('f', a), ('h', b)]); out.append(('init.struct', Init('g', s, *build(s, i + j), pre=structdef(s) + '\n')))
        s = struct_('A', [('f', CHAR), ('h', array(a, 3)), ('k', a)]); out.append(('init.struct', Init('g', array(s, 2), *build(array(s, 2), i), pre=structdef(s) + '\n')))
        s = struct_('A', [('f', a), ('h', DOUBLE)], True); out.append(('init.union', Init('g', s, *build(s, i), pre=structdef(s) + '\n')))
        s2 = struct_('B', [('c', CHAR), ('u', s), ('d', a)]); out.append(('init.union', Init('g', s2, *build(s2, i), pre=structdef(s) + structdef(s2) + '\n')))
        s = struct_('A', [('f', a), ('h', CHAR)]); s2 = struct_('B', [('x', s), ('y', array(s, 2)), ('z', a)])
        out.append(('init.struct', Init('g', array(s2, 2), *build(array(s2, 2), i), pre=structdef(s) + structdef(s2) + '\n')))
    al = struct_('A', [('f%d' % i, t) for i, t in enumerate(SCALARS)])
    for k in range(12): out.append(('init.struct', Init('g', al, *build(al, k), pre=structdef(al) + '\n')))
    for txt, b in (('"ab"', b'ab'), ('"a\\n\\x80z\\0q"', b'a\n\x80z\0q'), ('""', b''), ('"abcdefg"', b'abcdefg'), ('"ab" "cd"', b'abcd')):
        for n in (len(b), len(b) + 1, len(b) + 5):
            if n == 0: continue
            for t in (CHAR, UCHAR): out.append(('init.string', Init('g', array(t, n), txt, b.ljust(n, b'\0'))))
        out.append(('init.string', Init('g', T('char[]', 'array', 0, sub=CHAR, n=0, size=len(b) + 1, align=1), txt, b + b'\0')))
        out.append(('init.string', Init('g', array(array(CHAR, 8), 2), '{ %s, "x" }' % txt, b.ljust(8, b'\0') + b'x'.ljust(8, b'\0'))))
    for txt, l in (('L"ab"', [97, 98]), ('L""', []), ('L"\\x41\\u1234\\uffff"', [65, 0x1234, 0xffff])):
        b = b''.join(x.to_bytes(4, 'little') for x in l)
        for n in (len(l), len(l) + 1, len(l) + 3):
            if n: out.append(('init.string', Init('g', array(INT, n), txt, b.ljust(4 * n, b'\0'))))
    # references
    base = 'int arr[3] = { 1, 2, 3 }; struct R { int a; char b[5]; }; struct R rec; int fun(void) { return 1; }\n'
    R = struct_('R', [('a', INT), ('b', array(CHAR, 5))]); cp = ptr(CHAR); ip = ptr(INT); rp = ptr(R)
    refs = [(ip, '&arr[0]', ('ref.data', 'arr')), (rp, '&rec', ('ref.data', 'rec')), (cp, '"text"', ('str', b'text\0')), (cp, 'NULL', None), (ip, '0', None), (cp, '""', ('str', b'\0'))]
    for k, (t, x, r) in enumerate(refs):
        out.append(('init.ref', Init('g', t, x, bytes(4), {0: r} if r else {}, base)))
        out.append(('init.ref', Init('g', array(t, 3), '{ NULL, %s, %s }' % (x, x), bytes(12), {4: r, 8: r} if r else {}, base)))
        s = struct_('P', [('c', CHAR), ('p', t), ('d', DOUBLE), ('q', t)])
        out.append(('init.ref', Init('g', array(s, 2), '{ { 1, %s, 2.0, NULL }, { 3, NULL, 4.0, %s } }' % (x, x),
            b'\1\0\0\0\0\0\0\0' + fbytes(DOUBLE, 2.0) + bytes(8) + b'\3\0\0\0\0\0\0\0' + fbytes(DOUBLE, 4.0) + bytes(8), {4: r, 24 + 16: r} if r else {}, base + structdef(s) + '\n')))
    out.append(('init.ref', Init('g', T('int (*)(void)', 'fnptr', 32), '&fun', bytes(4), {0: ('ref.func', 'fun')}, base)))
    return out


def struct_(n, f, u=False): return struct_of(n, f, u)


def uniq(i, k):
    """the same declarations under names of their own"""
    tags = sorted(set(re.findall(r'\b(?:struct|union) ([A-Z])\b', i.pre)))
    def r(s):
        for t in tags: s = re.sub(r'\b(struct|union) %s\b' % t, r'\1 %s%d' % (t, k), s)
        return re.sub(r'\b(g|arr|rec|fun)\b', r'\g<1>%d' % k, s)
    src = i.src() if i.t.kind != 'fnptr' else i.pre + 'int (*g)(void) = %s;\n' % i.text
    if i.t.name == 'char[]': src = 'char g[] = %s;\n' % i.text
    return r(src)


def task2(c, l):
    src = '#include <stddef.h>\n' + ''.join(uniq(i, k) for k, (r, n, i) in enumerate(l)) + 'int main(void) { return 0; }\n'
    try: txt = compile_text(src)
    except Rejected as e:
        if len(l) > 1:
            for x in l: task2(c, [x])
            return
        r, n, i = l[0]
        c.ob(r, n, False, 'the initialiser %s is rejected: %s' % (uniq(i, 0).strip().replace('\n', ' ')[-150:], str(e)[:160]), 'c.c:process_vardecl'); return
    except Cut as e:
        for r, n, i in l: c.undecided(r, n, e)
        return
    D, G = datas(txt)
    for k, (r, n, i) in enumerate(l):
        nm = 'g%d' % k; what = uniq(i, k).strip().split('\n')[-1]
        try: check_init(c, r, n, i, what, nm, k, D, G)
        except Undecided as e: c.undecided(r, n, e)


def check_init(c, r, n, i, what, nm, k, D, G):
    where = 'c.c:initialize_bulk_data' if nm in D else 'c.c:process_vardecl'

    def ref(got, exp):
        if exp is None: return got is None
        if got is None: return False
        if exp[0] == 'str': return got[0] == 'ref.data' and got[1] in D and D[got[1]][0] == exp[1] and not D[got[1]][2]
        return got == (exp[0], '%s%d' % (exp[1], k))
    if nm in D:
        b, al, rel = D[nm]
        if len(b) != len(i.data): c.ob(r, n, False, '%s: the object has %d bytes' % (what, len(b)), where, len(i.data), len(b)); return
        if al % i.t.align: c.ob(r, n, False, '%s: the object is aligned to %d' % (what, al), where, i.t.align, al); return
        if b != i.data: c.ob(r, n, False, '%s: the bytes of the object are wrong' % what, where, i.data.hex(), b.hex()); return
        if set(rel) != set(i.rel): c.ob(r, n, False, '%s: addresses are put at %s' % (what, sorted(rel)), where, sorted(i.rel), sorted(rel)); return
        for o in rel:
            if not ref(rel[o], i.rel[o]): c.ob(r, n, False, '%s: the address at %d is %s' % (what, o, rel[o]), where, i.rel[o], rel[o]); return
        c.ob(r, n, True); return
    if nm not in G: raise Undecided('object not found')
    g = G[nm]
    # ( export "n" ) ( mut t ) ( t.const v )
    j = g.index('mut'); wtyp = g[j + 1]; rest = [x for x in g[j + 2:] if x not in '()']
    t = i.t
    want_t = 'f%d' % t.w if t.isfloat() else 'i64' if t.w == 64 else 'i32'
    if wtyp != want_t: c.ob(r, n, False, '%s: the global has type %s' % (what, wtyp), where, want_t, wtyp); return
    if i.rel:
        ok = rest[0] in ('ref.data', 'ref.func') and ref((rest[0], rest[1].split(':', 1)[-1]), i.rel[0])
        c.ob(r, n, ok, '%s: the initial value is %s' % (what, ' '.join(rest)), where, i.rel[0], rest); return
    if not rest: v = 0; rest = [want_t + '.const', '0']
    if rest[0] != want_t + '.const': c.ob(r, n, False, '%s: the initial value is %s' % (what, ' '.join(rest)), where, want_t + '.const', rest); return
    if t.isfloat(): b = fbytes(t, float.fromhex(rest[1]) if 'x' in rest[1] else float(rest[1]))
    else: b = (int(rest[1], 0) & M(max(32, t.w))).to_bytes(max(32, t.w) // 8, 'little')[:max(1, t.w // 8)]
    c.ob(r, n, b == i.data, '%s: the initial value is %s' % (what, ' '.join(rest)), where, i.data.hex(), b.hex())


# ---------------------------------------------------------------- literals
def literals():
    out = []
    for suf, t in (('', INT), ('u', UINT), ('U', UINT), ('l', INT), ('L', INT), ('ul', UINT), ('UL', UINT), ('lu', UINT), ('ll', LLONG), ('LL', LLONG), ('ull', ULLONG), ('ULL', ULLONG), ('llu', ULLONG)):
        hi = (1 << t.w - (1 if t.signed else 0)) - 1
        for v in sorted({0, 1, 7, 8, 9, 10, 63, 64, 255, 256, 65535, 1 << 30, hi, hi - 1, hi >> 1, 123456789, 0x12345678 & hi}):
            for f in ('%d', '0x%x', '0X%X', '0%o'): out.append((f % v + suf, v if v or f == '%d' else 0, {LONG: INT, ULONG: UINT}.get(t, t)))
    for ch in range(32, 127):
        if chr(ch) not in "'\\": out.append(("'%c'" % ch, ch, INT))
    for e, v in (('\\n', 10), ('\\t', 9), ('\\r', 13), ('\\a', 7), ('\\b', 8), ('\\f', 12), ('\\v', 11), ('\\0', 0), ('\\\\', 92), ("\\'", 39), ('\\"', 34), ('\\?', 63), ('\\x41', 65), ('\\x7f', 127), ('\\101', 65), ('\\7', 7), ('\\177', 127), ('\\x0', 0)):
        out.append(("'%s'" % e, v, INT))
    for v in (1, 2, 0x7f): out.append(("L'\\x%x'" % v, v, LONG))
    out.append(("L'A'", 65, LONG)); out.append(("L'\\u20ac'", 0x20ac, LONG));
    for s, v in (('1.0', 1.0), ('0.5', .5), ('.25', .25), ('3.', 3.0), ('1e3', 1e3), ('25e-2', .25), ('1E+2', 100.), ('0.1', .1), ('1.7976931348623157e308', 1.7976931348623157e308), ('0x1.8p3', 12.0), ('0x1p-3', .125), ('123456789.0', 123456789.0)):
        out.append((s, v, DOUBLE))
        if abs(v) < 1e38:
            for f in 'fF': out.append((s + f, struct.unpack('<f', struct.pack('<f', v))[0], FLOAT))
    return out


def task3(c, l):
    src = '#include <stddef.h>\n'; names = {t: i + 1 for i, t in enumerate(SCALARS)}
    gen = ', '.join('%s: %d' % (t.name, i) for t, i in names.items())
    for k, (s, v, t) in enumerate(l): src += 'int t%d = generic(%s, %s, default: 0);\n%s v%d = %s;\n' % (k, s, gen, t.name, k, s)
    src += 'int main(void) { return 0; }\n'
    try: txt = compile_text(src)
    except Rejected as e:
        if len(l) > 1:
            for x in l: task3(c, [x])
            return
        c.ob('literal', key3(l[0]), False, 'the literal %s is rejected: %s' % (l[0][0], str(e)[:200]), 'p.c:parse_primary_expr'); return
    except Cut as e:
        for x in l: c.undecided('literal', key3(x), e)
        return
    D, G = datas(txt)
    for k, x in enumerate(l):
        s, v, t = x
        g, h = G.get('t%d' % k), G.get('v%d' % k)
        if not g or not h: c.undecided('literal', key3(x), 'not found'); continue
        a = [y for y in g[g.index('mut') + 2:] if y not in '()']; b = [y for y in h[h.index('mut') + 2:] if y not in '()']
        ty = int(a[1])
        val = float.fromhex(b[1]) if t.isfloat() and 'x' in b[1] else float(b[1]) if t.isfloat() else int(b[1], 0) & M(t.w)
        okt = ty and (SCALARS[ty - 1] is t or {SCALARS[ty - 1], t} <= {INT, LONG} or {SCALARS[ty - 1], t} <= {UINT, ULONG})
        c.ob('literal', key3(x), bool(okt and val == v), 'the literal %s has type %s and value %s' % (s, SCALARS[ty - 1] if ty else 'none', val), 'p.c:parse_primary_expr', '%s %s' % (t, v), '%s %s' % (SCALARS[ty - 1] if ty else 'none', val))


def key3(x): return ''.join(ch if ch.isalnum() or ch in '.+-' else '_%02x' % ord(ch) for ch in x[0])


def task4(c, l):
    """enumerators"""
    ds = [('enum E { A, B, C };', dict(A=0, B=1, C=2)), ('enum E { A = 5, B, C = 1, D };', dict(A=5, B=6, C=1, D=2)), ('enum E { A = -3, B, C = (1 << 4) | 2, D = C + 1, F };', dict(A=-3, B=-2, C=18, D=19, F=20)),
          ('enum E { A = sizeof(int), B = A * 3, C };', dict(A=4, B=12, C=13)), ('enum { A = 2147483647, B = -2147483647-1, C };', dict(A=2147483647, B=-2147483648, C=-2147483647)), ("enum { A = 'x', B };", dict(A=120, B=121))]
    for k, (d, vs) in enumerate(ds):
        src = d + '\n' + ''.join('int v%s = %s;\n' % (n, n) for n in vs) + 'int w[%s > 0 ? 2 : 1] = { A };\nint main(void) { return 0; }\n' % list(vs)[0]
        try: D, G = datas(compile_text(src))
        except Rejected as e: c.ob('enum', str(k), False, '%s is rejected: %s' % (d, e), 'p.c:parse_enum_body'); continue
        except Cut as e: c.undecided('enum', str(k), e); continue
        for n, v in vs.items():
            g = G.get('v' + n); a = [y for y in g[g.index('mut') + 2:] if y not in '()'] if g else None
            if not g: c.undecided('enum', '%d.%s' % (k, n), 'not found'); continue
            got = sx(int(a[1], 0) & M(32), 32) if len(a) > 1 else 0
            c.ob('enum', '%d.%s' % (k, n), got == v, 'in %s %s has the value %d' % (d, n, got), 'p.c:parse_enum_body', v, got)


def tasks(c, x):
    f, l = x
    f(c, l)


def run(c):
    engine_for(DRV, maxforks=14, maxpaths=200); engine_for()
    l = list(exprs(c.tier)); n = 48
    w = [(task, l[i::n]) for i in range(n)]
    l = [(r, '%s.%d' % (i.t.name.replace(' ', '.'), k), i) for k, (r, i) in enumerate(inits())]
    w += [(task2, l[i:i + 12]) for i in range(0, len(l), 12)]
    l = literals(); w += [(task3, l[i:i + 16]) for i in range(0, len(l), 16)]
    w.append((task4, None))
    c.pmap(w, tasks)
    for r, k in (('cast', 150), ('unary', 45), ('binary', 2300), ('conditional', 160), ('init.scalar', 100), ('init.array', 60), ('init.struct', 150), ('init.string', 30), ('init.ref', 12), ('literal', 800), ('enum', 12)): c.need(r, k)
