"""Reference semantics of C expressions and statements over unknown operands, written from the C standard for WCPL's data
model (8/16/32/32/64-bit two's complement integers, char signed, IEEE floats).  A construct is an object that can be
printed as C source (.c()) and evaluated to a term (.ev(env)); the emitted code of the printed source must meet the same
terms and the same effects in the same order."""
from wasmev import *


class T:
    def __init__(self, name, kind, w=0, signed=False, rank=0, **k):
        self.name = name; self.kind = kind; self.w = w; self.signed = signed; self.rank = rank
        self.sub = None; self.n = 0; self.fields = []; self.align = w // 8; self.size = w // 8
        self.__dict__.update(k)

    def __repr__(self): return self.name

    def isint(self): return self.kind in ('int', 'bool')

    def isfloat(self): return self.kind == 'float'

    def arith(self): return self.kind in ('int', 'bool', 'float')

    def decl(self, x):
        """declaration of x with this type"""
        if self.kind == 'ptr':
            x = '*' + x
            if self.sub.kind in ('array', 'func'): x = '(%s)' % x
            return self.sub.decl(x)
        if self.kind == 'array': return self.sub.decl('%s[%d]' % (x, self.n))
        if self.kind == 'func': return self.sub.decl('%s(%s)' % (x, ', '.join([p.decl('') for p in self.params] + (['...'] if self.variadic else [])) or 'void'))
        return ('%s %s' % (self.name, x)).strip()


BOOL = T('bool', 'bool', 8, False, 0)
CHAR = T('char', 'int', 8, True, 1); UCHAR = T('unsigned char', 'int', 8, False, 1)
SHORT = T('short', 'int', 16, True, 2); USHORT = T('unsigned short', 'int', 16, False, 2)
INT = T('int', 'int', 32, True, 3); UINT = T('unsigned int', 'int', 32, False, 3)
LONG = T('long', 'int', 32, True, 4); ULONG = T('unsigned long', 'int', 32, False, 4)
LLONG = T('long long', 'int', 64, True, 5); ULLONG = T('unsigned long long', 'int', 64, False, 5)
FLOAT = T('float', 'float', 32, True); DOUBLE = T('double', 'float', 64, True)
VOID = T('void', 'void')
SCALARS = [BOOL, CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, FLOAT, DOUBLE]
INTS = [t for t in SCALARS if t.isint()]


def ptr(t): return T(t.decl('*') if t.kind in ('array', 'func') else t.name + ' *', 'ptr', 32, False, sub=t)


def func(ret, params, variadic=False):
    t = T('', 'func', params=params, variadic=variadic); t.sub = ret
    t.name = t.decl('')
    return t


def array(t, n): return T('%s[%d]' % (t.name, n), 'array', 0, sub=t, n=n, size=t.size * n, align=t.align)


def struct(name, fields, union=False):
    """fields: [(name, T)]"""
    off = 0; al = 1; fs = []
    for n, t in fields:
        al = max(al, t.align)
        if union: fs.append((n, t, 0)); off = max(off, t.size)
        else: off = (off + t.align - 1) // t.align * t.align; fs.append((n, t, off)); off += t.size
    return T(('union ' if union else 'struct ') + name, 'struct', 0, fields=fs, align=al, size=(off + al - 1) // al * al)


def structdef(s): return s.name + ' { ' + ' '.join(t.decl(n) + ';' for n, t, o in s.fields) + ' };'


def promote(t):
    if t.kind == 'bool' or t.isint() and t.rank < 3: return INT
    return t


def unsigned(t): return {INT: UINT, LONG: ULONG, LLONG: ULLONG}.get(t, t)


def common(a, b):
    """usual arithmetic conversions"""
    if DOUBLE in (a, b): return DOUBLE
    if FLOAT in (a, b): return FLOAT
    a, b = promote(a), promote(b)
    if a is b: return a
    if a.signed == b.signed: return a if a.rank >= b.rank else b
    u, s = (b, a) if a.signed else (a, b)
    if u.rank >= s.rank: return u
    if s.w > u.w: return s
    return unsigned(s)


def conv(env, v, f, t):
    if f is t or f.kind == 'ptr' and t.kind == 'ptr': return v
    fw_ = f.w; tw = t.w
    if t.kind == 'bool':
        if f.kind == 'bool': return v
        if f.isfloat(): return b2v(fcmpbit('ne', fw_, v, fconst(fw_, 0.0)), 8)
        return b2v(cmpbit('ne', fw_, v, 0), 8)
    if t.isint() or t.kind == 'ptr':
        if f.isfloat():
            env.truncs.append((v, -(1 << (tw - 1)) if t.signed else 0, (1 << (tw - 1)) - 1 if t.signed else (1 << tw) - 1))
            return fptoint(v, tw)
        if tw <= fw_: return trunc(v, fw_, tw)
        return (sext if f.signed else zext)(v, fw_, tw)
    if t.isfloat():
        if f.isint(): return itof(tw, v, fw_, f.signed)
        if tw > fw_: return fpext(v)
        if tw < fw_: return fptrunc(v)
        return v
    raise Stuck('conversion %s -> %s' % (f, t))


def abi(v, t):
    """the WebAssembly value that carries a C value (narrow integers are extended)"""
    if t.isint() and t.w < 32: return (sext if t.signed else zext)(v, t.w, 32)
    return v


def wt(t): return 'f%d' % t.w if t.isfloat() else 'i64' if t.w == 64 else 'i32'


def truth(env, v, t):
    """condition bit of a scalar"""
    if t.isfloat(): return fcmpbit('ne', t.w, v, fconst(t.w, 0.0))
    return cmpbit('ne', t.w, v, 0)


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Goto(Exception):
    def __init__(self, l): self.l = l


class Env:
    def __init__(self, oracle, mem):
        self.o = oracle; self.mem = mem; self.vars = {}; self.truncs = []; self.types = {}; self.frame = {}

    def snap(self): return dict(self.vars), self.mem.chain, len(self.mem.log)

    def pure(self, bit, fa, fb):
        """(term, type) of a choice between two computations, as a term if neither has an effect, by cases otherwise"""
        if bit in (0, 1): return (fa if bit else fb)()
        s = self.snap(); vals = []; nt = len(self.truncs)
        for f in (fa, fb):
            try:
                v = f()
                ok = self.snap() == s
            except Need: ok = False
            self.vars = dict(s[0]); self.mem.chain = s[1]; del self.mem.log[s[2]:]
            if not ok: break
            vals.append(v)
        else:
            (x, t), (y, _) = vals
            return ite(bit, t.w, x, y), t
        del self.truncs[nt:]
        return (fa if self.o.decide(bit) else fb)()


class Var:
    def __init__(self, name): self.name = name

    def c(self): return self.name

    def ev(self, env):
        t = env.types[self.name]
        if self.name in env.frame: return env.load(env.frame[self.name], t), t
        return env.vars[self.name], t

    def set(self, env, v):
        if self.name in env.frame: env.store(env.frame[self.name], env.types[self.name], v)
        else: env.vars[self.name] = v

    def type(self, env): return env.types[self.name]

    def loc(self, env):
        if self.name in env.frame: return At(env.frame[self.name], env.types[self.name])
        return self


class GVar:
    """a global object"""

    def __init__(self, name, t): self.name = name; self.t = t

    def c(self): return self.name

    def loc(self, env): return At(sym('&$x:' + self.name, 32), self.t)

    def ev(self, env): return self.loc(env).ev(env)


def load(env, a, t):
    if t.kind in ('struct', 'array'): return a, t
    v = env.mem.read(a, t.size)
    if t.kind == 'bool' and not isinstance(v, int):
        env.mem.bools.add(a); v = env.mem.read(a, 1)
    return v


def store(env, a, t, v): env.mem.write(a, t.size, v)


Env.load = lambda self, a, t: load(self, a, t)
Env.store = lambda self, a, t, v: store(self, a, t, v)


class At:
    """an evaluated memory location"""

    def __init__(self, a, t): self.a = a; self.t = t

    def ev(self, env): return load(env, self.a, self.t), self.t

    def set(self, env, v): store(env, self.a, self.t, v)

    def type(self, env): return self.t


class Deref:
    """*p, p[i], p->f, s.f ... : text plus a function from env to (address, type)"""

    def __init__(self, text, f): self.text = text; self.f = f

    def c(self): return self.text if isinstance(self.text, str) else self.text()

    def loc(self, env): return At(*self.f(env))

    def ev(self, env): return self.loc(env).ev(env)


def Star(e): return Deref(lambda: '(*%s)' % e.c(), lambda env: (lambda vt: (vt[0], vt[1].sub))(e.ev(env)))


def Index(e, i):
    def f(env):
        p, t = decayed(e, env); v, it = i.ev(env)
        return padd(env, p, t, v, it, 1), t.sub
    return Deref(lambda: '%s[%s]' % (e.c(), i.c()), f)


def decayed(e, env):
    """value of an operand; an array is the address of its first element"""
    if hasattr(e, 'loc'):
        l = e.loc(env)
        if isinstance(l, At) and l.t.kind == 'array': return l.a, ptr(l.t.sub)
        return l.ev(env)
    return e.ev(env)


def padd(env, p, t, v, it, sgn):
    k = conv(env, v, it, INT) if it.w <= 32 else trunc(v, 64, 32)
    o = binop('mul', 32, k, t.sub.size)
    return binop('add' if sgn > 0 else 'sub', 32, p, o)


def Arrow(e, fld):
    def f(env):
        p, t = e.ev(env)
        o, ft = [(o, ft) for n, ft, o in t.sub.fields if n == fld][0]
        return binop('add', 32, p, o), ft
    return Deref(lambda: '%s->%s' % (e.c(), fld), f)


def Dot(l, fld):
    def f(env):
        at = l.loc(env)
        o, ft = [(o, ft) for n, ft, o in at.t.fields if n == fld][0]
        return binop('add', 32, at.a, o), ft
    return Deref(lambda: '%s.%s' % (l.c(), fld), f)


class Addr:
    def __init__(self, l): self.l = l

    def c(self): return '(&%s)' % self.l.c()

    def ev(self, env):
        at = self.l.loc(env)
        return at.a, ptr(at.t)


class Lit:
    def __init__(self, v, t, text=None): self.v = v; self.t = t; self.text = text

    def c(self): return self.text or str(self.v)

    def ev(self, env):
        if self.t.isfloat(): return fconst(self.t.w, float(self.v)), self.t
        return self.v & M(self.t.w), self.t


def arith(env, op, a, ta, b, tb):
    """binary arithmetic operators on values"""
    if op in ('<<', '>>'):
        t = promote(ta); x = conv(env, a, ta, t); tb2 = promote(tb); y = conv(env, b, tb, tb2)
        y = trunc(y, tb2.w, t.w) if tb2.w > t.w else zext(y, tb2.w, t.w)
        return shift('shl' if op == '<<' else 'ashr' if t.signed else 'lshr', t.w, x, y), t
    t = common(ta, tb); x = conv(env, a, ta, t); y = conv(env, b, tb, t); w = t.w
    if op in CMP:
        if t.isfloat(): return b2v(fcmpbit(CMP[op], w, x, y)), INT
        p = CMP[op]
        return b2v(cmpbit(p if p in ('eq', 'ne') else ('s' if t.signed else 'u') + p, w, x, y)), INT
    if t.isfloat(): return fop2({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], w, x, y), t
    if op in '/%': return idiv(('s' if t.signed else 'u') + ('div' if op == '/' else 'rem'), w, x, y), t
    return binop({'+': 'add', '-': 'sub', '*': 'mul', '&': 'and', '|': 'or', '^': 'xor'}[op], w, x, y), t


CMP = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}


def binary(env, op, a, ta, b, tb):
    if ta.kind == 'ptr' or tb.kind == 'ptr':
        if op in CMP:
            p = CMP[op]
            return b2v(cmpbit(p if p in ('eq', 'ne') else 'u' + p, 32, a, b)), INT
        if op == '-' and tb.kind == 'ptr':
            return idiv('sdiv', 32, binop('sub', 32, a, b), ta.sub.size), INT
        if ta.kind != 'ptr': a, ta, b, tb = b, tb, a, ta
        return padd(env, a, ta, b, tb, 1 if op == '+' else -1), ta
    return arith(env, op, a, ta, b, tb)


class Bin:
    def __init__(self, op, a, b): self.op = op; self.a = a; self.b = b

    def c(self): return '(%s %s %s)' % (self.a.c(), self.op, self.b.c())

    def ev(self, env):
        if self.op in ('&&', '||'):
            x = truth(env, *self.a.ev(env))
            rest = lambda: (b2v(truth(env, *self.b.ev(env))), INT)
            k = lambda: (int(self.op == '||'), INT)
            return env.pure(x, rest, k) if self.op == '&&' else env.pure(x, k, rest)
        if self.op == ',':
            self.a.ev(env); return self.b.ev(env)
        x, ta = self.a.ev(env); y, tb = self.b.ev(env)
        return binary(env, self.op, x, ta, y, tb)


class Un:
    def __init__(self, op, a): self.op = op; self.a = a

    def c(self): return '(%s%s)' % (self.op, self.a.c())

    def ev(self, env):
        v, t = self.a.ev(env)
        if self.op == '!': return b2v(bnot(truth(env, v, t))), INT
        p = promote(t); v = conv(env, v, t, p)
        if self.op == '+': return v, p
        if self.op == '~': return binop('xor', p.w, v, M(p.w)), p
        if p.isfloat(): return mk('fneg', p.w, v), p
        return binop('sub', p.w, 0, v), p


class Cast:
    def __init__(self, t, a): self.t = t; self.a = a

    def c(self): return '((%s)%s)' % (self.t.decl(''), self.a.c())

    def ev(self, env):
        v, t = self.a.ev(env)
        return conv(env, v, t, self.t), self.t


class Cond:
    def __init__(self, q, a, b): self.q = q; self.a = a; self.b = b

    def c(self): return '(%s ? %s : %s)' % (self.q.c(), self.a.c(), self.b.c())

    def ev(self, env):
        bit = truth(env, *self.q.ev(env))
        ta, tb = typeof(env, self.a), typeof(env, self.b)
        t = common(ta, tb) if ta.arith() and tb.arith() else ta

        def arm(e):
            def f():
                v, et = e.ev(env)
                return conv(env, v, et, t), t
            return f
        return env.pure(bit, arm(self.a), arm(self.b))


def typeof(env, e):
    """static type of an expression (evaluated on a throw-away copy, so effects do not count)"""
    s = env.snap(); nt = len(env.truncs); o = env.o

    class Any(Oracle):
        def decide(self, bit): return True if bit not in (0, 1) else bool(bit)
    env.o = Any()
    try: return e.ev(env)[1]
    finally:
        env.o = o; env.vars = dict(s[0]); env.mem.chain = s[1]; del env.mem.log[s[2]:]; del env.truncs[nt:]


class Assign:
    """op is '=' or '+=' etc."""

    def __init__(self, op, l, e): self.op = op; self.l = l; self.e = e

    def c(self): return '(%s %s %s)' % (self.l.c(), self.op, self.e.c())

    def ev(self, env):
        l = self.l.loc(env); t = l.type(env)
        if t.kind in ('struct', 'array'):
            if isinstance(self.e, Call): self.e.into(env, l.a)
            else:
                s = self.e.loc(env); env.mem.copy(l.a, s.a, t.size)
            return l.a, t
        if self.op == '=': v, et = self.e.ev(env)
        else:
            x, _ = l.ev(env); y, tb = self.e.ev(env)
            v, et = binary(env, self.op[:-1], x, t, y, tb)
        v = conv(env, v, et, t)
        l.set(env, v)
        return v, t


class IncDec:
    def __init__(self, op, l, post): self.op = op; self.l = l; self.post = post

    def c(self): return '(%s%s)' % ((self.l.c(), self.op) if self.post else (self.op, self.l.c()))

    def ev(self, env):
        l = self.l.loc(env); t = l.type(env)
        x, _ = l.ev(env)
        v, et = binary(env, self.op[0], x, t, 1, INT)
        v = conv(env, v, et, t) if et is not t else v
        l.set(env, v)
        return (x if self.post else v), t


def retsym(t, k):
    """what an unknown function returns"""
    return b2v((sym('ret%d' % k, 1), 0), 8) if t.kind == 'bool' else sym('ret%d' % k, t.w)


class Call:
    """call of an unknown function: argument values are converted to the parameter types"""

    def __init__(self, name, params, ret, args, va=False): self.name = name; self.params = params; self.rett = ret; self.args = args; self.va = va

    def c(self): return '%s(%s)' % (self.name if isinstance(self.name, str) else '(*%s)' % self.name.c(), ', '.join(a.c() for a in self.args))

    def into(self, env, dest): return self.ev(env, [dest])

    def ev(self, env, hidden=()):
        vs = list(hidden)
        for a, pt in zip(self.args, self.params):
            v, t = decayed(a, env); vs.append(abi(conv(env, v, t, pt), pt))
        if self.va:
            rest = []
            for a in self.args[len(self.params):]:
                v, t = decayed(a, env); pt = DOUBLE if t is FLOAT else promote(t)
                rest.append((pt.size if pt.kind != 'ptr' else 4, conv(env, v, t, pt)))
            vs.append(('va', len(rest), tuple(rest)))
        nm = self.name if isinstance(self.name, str) else self.name.ev(env)[0]
        k = sum(1 for e in env.mem.log if e[0] == 'call')
        env.mem.log.append(('call', nm, tuple(vs)))
        env.mem.chain = mk('called', 0, env.mem.chain, k)
        if self.rett.kind == 'struct': return vs[0], self.rett
        if self.rett is VOID: return 0, VOID
        r = retsym(self.rett, k)
        return r, self.rett


# ------------------------------------------------------------------ statements
class S:
    pass


class Ex(S):
    def __init__(self, e): self.e = e

    def c(self): return self.e.c() + ';'

    def run(self, env): self.e.ev(env)


class Return_(S):
    def __init__(self, e=None): self.e = e

    def c(self): return 'return %s;' % self.e.c() if self.e else 'return;'

    def run(self, env):
        if self.e is None: raise Ret(None)
        if env.rett.kind == 'struct':
            if isinstance(self.e, Call): self.e.into(env, sym('rp', 32))
            else: env.mem.copy(sym('rp', 32), self.e.loc(env).a, env.rett.size)
            raise Ret(None)
        v, t = self.e.ev(env)
        raise Ret(abi(conv(env, v, t, env.rett), env.rett))


class Block(S):
    def __init__(self, *ss): self.ss = ss

    def c(self): return '{ ' + ' '.join(s.c() for s in self.ss) + ' }'

    def run(self, env): runseq(self.ss, env)


def labels_in(s):
    if isinstance(s, Label): return {s.l} | labels_in(s.s)
    if isinstance(s, Block): return set().union(*[labels_in(x) for x in s.ss]) if s.ss else set()
    return set()


def runseq(ss, env, start=0):
    i = start
    while i < len(ss):
        try: ss[i].run(env); i += 1
        except Goto as g:
            for j, s in enumerate(ss):
                if isinstance(s, Label) and s.l == g.l:
                    env.jumps = getattr(env, 'jumps', 0) + 1
                    if env.jumps > 8: raise Stuck('loop bound')
                    i = j; break
            else: raise


class LBlock(S):
    """block with a label at its start or end"""

    def __init__(self, l, end, *ss): self.l = l; self.end = end; self.ss = ss

    def c(self):
        b = ' '.join(s.c() for s in self.ss)
        return '{ %s %s: }' % (b, self.l) if self.end else '{ %s: %s }' % (self.l, b)

    def run(self, env):
        n = 0
        while True:
            try: runseq(self.ss, env); return
            except Goto as g:
                if g.l != self.l: raise
                if self.end: return
                n += 1
                if n > env.maxloop: raise Stuck('loop bound')


class Label(S):
    def __init__(self, l, s): self.l = l; self.s = s

    def c(self): return '%s: %s' % (self.l, self.s.c())

    def run(self, env): self.s.run(env)


class GotoS(S):
    def __init__(self, l): self.l = l

    def c(self): return 'goto %s;' % self.l

    def run(self, env): raise Goto(self.l)


class If(S):
    def __init__(self, q, a, b=None): self.q = q; self.a = a; self.b = b

    def c(self): return 'if (%s) %s%s' % (self.q.c(), self.a.c(), ' else ' + self.b.c() if self.b else '')

    def run(self, env):
        if env.o.decide(truth(env, *self.q.ev(env))): self.a.run(env)
        elif self.b: self.b.run(env)


class BreakS(S):
    def c(self): return 'break;'

    def run(self, env): raise Brk()


class ContS(S):
    def c(self): return 'continue;'

    def run(self, env): raise Cont()


class Loop(S):
    """while / do / for"""

    def __init__(self, kind, q, body, init=None, step=None):
        self.kind = kind; self.q = q; self.body = body; self.init = init; self.step = step

    def c(self):
        if self.kind == 'while': return 'while (%s) %s' % (self.q.c(), self.body.c())
        if self.kind == 'do': return 'do %s while (%s);' % (self.body.c(), self.q.c())
        return 'for (%s; %s; %s) %s' % tuple([x.c() if x else '' for x in (self.init, self.q, self.step)] + [self.body.c()])

    def run(self, env):
        if self.init: self.init.ev(env)
        n = 0
        while True:
            if (self.kind != 'do' or n) and self.q and not env.o.decide(truth(env, *self.q.ev(env))): return
            n += 1
            if n > env.maxloop: raise Stuck('loop bound')
            try: self.body.run(env)
            except Brk: return
            except Cont: pass
            if self.step: self.step.ev(env)


class Switch(S):
    """arms: [([case values or None for default], [statements])]"""

    def __init__(self, e, arms): self.e = e; self.arms = arms

    def c(self):
        o = 'switch (%s) { ' % self.e.c()
        for vs, ss in self.arms:
            for v in vs: o += 'default: ' if v is None else 'case %s: ' % v
            o += ' '.join(s.c() for s in ss) + ' '
        return o + '}'

    def run(self, env):
        v, t = self.e.ev(env)
        p = promote(t); v = conv(env, v, t, p)
        start = None; dflt = None
        for i, (vs, ss) in enumerate(self.arms):
            for k in vs:
                if k is None: dflt = i
                elif start is None and env.o.decide(cmpbit('eq', p.w, v, k & M(p.w))): start = i
        if start is None: start = dflt
        if start is None: return
        try:
            for vs, ss in self.arms[start:]: runseq(ss, env)
        except Brk: pass


class VaStart(S):
    def __init__(self, ap): self.ap = ap

    def c(self): return 'va_start(%s, 0);' % self.ap.c()

    def run(self, env): self.ap.set(env, sym('p:ap$', 32))


class VaArg:
    """next variable argument: slots of 16 bytes"""

    def __init__(self, ap, t): self.ap = ap; self.t = t

    def c(self): return 'va_arg(%s, %s)' % (self.ap.c(), self.t.decl(''))

    def ev(self, env):
        p, _ = self.ap.ev(env)
        self.ap.set(env, binop('add', 32, p, 16))
        return env.load(p, self.t), self.t


VALIST = T('va_list', 'ptr', 32, False, sub=T('va_arg_t', 'struct', size=16, align=16))


class Fun:
    """a function definition: params [(name, T)], locals [(name, T, init or None)], statements; the addresses of the objects
    in frame are passed to the unknown function q first thing, in order"""

    def __init__(self, name, ret, params, stmts, locals=(), frame=(), va=False):
        self.name = name; self.ret = ret; self.params = params; self.stmts = stmts; self.locals = locals; self.frame = frame; self.va = va

    def c(self):
        ty = {n: t for n, t in self.params}; ty.update({n: t for n, t, i in self.locals})
        loc = ' '.join('%s%s;' % (t.decl(n), ' = ' + i.c() if i else '') for n, t, i in self.locals)
        loc += ' '.join(' q(&%s%s);' % (n, '[0]' * depth(ty[n])) for n in self.frame)
        return '%s { %s %s }' % (self.ret.decl('%s(%s)' % (self.name, ', '.join([t.decl(n) for n, t in self.params] + (['...'] if self.va else [])) or 'void')), loc,
                                 ' '.join(s.c() for s in self.stmts))

    def run(self, env):
        env.rett = self.ret; env.frame = {}
        lay = getattr(env, 'layout', {})
        for n, t in self.params:
            env.types[n] = t
            v = sym('p:' + n, t.w) if t.kind != 'bool' else b2v((sym('p:' + n, 1), 0), 8)
            if n in self.frame: env.frame[n] = lay[n]; env.store(lay[n], t, v)
            else: env.vars[n] = v
        for n, t, i in self.locals:
            env.types[n] = t
            if n in self.frame: env.frame[n] = lay[n]
            if i is not None:
                v, et = i.ev(env); v = conv(env, v, et, t)
                if n in self.frame: env.store(lay[n], t, v)
                else: env.vars[n] = v
            elif n not in self.frame: env.vars[n] = sym('undef:' + n, t.w)
        for n in self.frame:
            Call('q', [ptr(VOID)], INT, [_Addr(lay[n])]).ev(env)
        try: runseq(self.stmts, env)
        except Ret as r: return r.v
        return None

    def wargs(self):
        out = [sym('rp', 32)] if self.ret.kind == 'struct' else []
        for n, t in self.params:
            v = sym('p:' + n, t.w) if t.kind != 'bool' else b2v((sym('p:' + n, 1), 0), 8)
            out.append(abi(v, t))
        if self.va: out.append(sym('p:ap$', 32))
        return out


def depth(t): return 1 + depth(t.sub) if t.kind == 'array' else 0


class _Addr:
    def __init__(self, a): self.a = a

    def ev(self, env): return self.a, ptr(VOID)
