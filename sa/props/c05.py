"""Linking: families of small modules (every reference graph over three data objects, call and reference graphs over
functions and globals of two modules, shared constants, library and subsystem dependencies) are put through the analysed
linker and converter with data bytes, constants and offsets unknown.  Walking the resulting binary module from its
exported _start in step with the input modules, every index, table slot and address must lead to the entity the input
names: same signature, locals, code and initial value; objects lie inside the data segment, aligned, apart from each
other (only equal constants may coincide); stack, heap and memory limits enclose them; nothing else is carried along.
Unresolvable, ambiguous or mistyped references end the link with a diagnostic."""
import itertools
from model import *
from symdec import resolve
from absint import NOTHANDLED
import wasmdrv
LEVEL = 'other'
VT = {'i32': 0x7F, 'i64': 0x7E, 'f32': 0x7D, 'f64': 0x7C, 'v128': 0x7B}
FUNC, GLOBAL, DATA, MEM = 4, 3, 2, 1
IEK = {}   # filled from the sources' own enumeration through the driver


class Fn:
    def __init__(self, *code, params=(), results=(), locals=(), exported=True):
        self.code = list(code); self.params = list(params); self.results = list(results); self.locals = list(locals); self.exported = exported


class Gl:
    def __init__(self, vt='i32', mut=True, init=None, exported=True): self.vt = vt; self.mut = mut; self.init = init; self.exported = exported


class Da:
    def __init__(self, data, refs=(), align=4, mut=True, exported=True):
        self.data = list(data); self.refs = list(refs); self.align = align; self.mut = mut; self.exported = exported


class Im:
    """import of a subsystem function: only the name counts"""

    def __init__(self, params=(), results=()): self.params = list(params); self.results = list(results)


WASI = 'wasi_snapshot_preview1'
GETS = ('global.get', 'global.set')
CALLS = ('call', 'return_call')


def ins(name, mod=None, id=None, arg=0, lab=None): return (name, mod, id, arg, lab)


def C(n): return ins('i32.const', arg=n)


def call(m, f): return ins('call', m, f)


def fref(m, f): return ins('ref.func', m, f)


def dref(m, d, off=0): return ins('ref.data', m, d, off)


def gget(m, g): return ins('global.get', m, g)


def gset(m, g): return ins('global.set', m, g)


DROP = ins('drop')


class World:
    """modules {name: {id: entity}}; subsystem imports {name: Im}; lib: modules found as library objects"""

    def __init__(self, mods, main=('m', 1), wasi=None, lib=None): self.mods = mods; self.main = main; self.wasi = wasi or {}; self.lib = lib or {}; self.files = {}

    def get(self, mod, id):
        if mod == WASI: return self.wasi.get(id)
        if mod in self.mods: return self.mods[mod].get(id)
        if mod in self.lib: return self.lib[mod].get(id)


def crt(**more):
    d = {'sp$': Gl('i32', True, C(4242)), 'stack_base': Gl('i32', False, C(4242)), 'heap_base': Gl('i32', False, C(4242)),
         'initialize': Fn(ins('return')), 'terminate': Fn(ins('local.get', id='$s', lab='l'), DROP, ins('return'), params=[('$s', 'i32')])}
    d.update(more)
    return d


def start(m='m', args=False):
    return Fn(call('crt', 'initialize'), *([gget('crt', '_argc'), gget('crt', '_argv')] if args else []), call(m, 'main'), call('crt', 'terminate'))


def refs_of(e):
    out = []
    if isinstance(e, Fn):
        for n, mod, id, arg, lab in e.code:
            if n in GETS: out.append((GLOBAL, mod, id))
            elif n in CALLS or n == 'ref.func': out.append((FUNC, mod, id))
            elif n == 'ref.data': out.append((DATA, mod, id))
    elif isinstance(e, Gl) and e.init and e.init[1]:
        out.append((FUNC if e.init[0] == 'ref.func' else DATA if e.init[0] == 'ref.data' else GLOBAL, e.init[1], e.init[2]))
    elif isinstance(e, Da):
        for mod, id, toff, soff in e.refs: out.append((DATA, mod, id))
    return out


# ------------------------------------------------------------------ object text of a module
def text_of(name, mod, world):
    o = ['(module $%s' % name]; seen = set()
    for id, e in mod.items():
        for k, m, i in refs_of(e):
            if m != name and (m, i) not in seen:
                seen.add((m, i)); t = world.get(m, i)
                if k == FUNC:
                    ps = [p[1] if isinstance(p, tuple) else p for p in (t.params if t else [])]; rs = t.results if t else []
                    o.append('  (import "%s" "%s" (func $%s:%s%s%s))' % (m, i, m, i, ''.join(' (param %s)' % x for x in ps), ' (result %s)' % ' '.join(rs) if rs else ''))
                elif k == GLOBAL: o.append('  (import "%s" "%s" (global $%s:%s %s))' % (m, i, m, i, (('(mut %s)' if t.mut else '%s') % t.vt) if t else 'i32'))
                else: o.append('  (import "%s" "%s" (data $%s:%s %s align=%d size=%d))' % (m, i, m, i, ('var' if t.mut else 'const') if t else 'var', t.align if t else 4, len(t.data) if t else 4))
    if name == 'crt': o.append('  (memory $crt:memory (export "memory") 2)')
    else: o.append('  (import "crt" "memory" (memory $crt:memory 0))')
    for id, e in mod.items():
        ex = ' (export "%s")' % id if e.exported else ''
        if isinstance(e, Gl):
            n = e.init
            v = '' if n is None else '(%s $%s:%s%s)' % (n[0], n[1], n[2], ' offset=%d' % n[3] if n[3] else '') if n[1] else '(%s %s)' % (n[0], n[3])
            o.append('  (global $%s:%s%s %s %s)' % (name, id, ex, ('(mut %s)' if e.mut else '%s') % e.vt, v))
        elif isinstance(e, Da):
            body = ''.join('\n    (ref.data $%s:%s%s\n     data.put_ref offset=%d)' % (m, i, ' offset=%d' % t if t else '', s) for m, i, t, s in e.refs)
            val = '"%s"' % ''.join('\\%02x' % b for b in e.data) if any(e.data) else 'size=%d' % len(e.data)
            o.append('  (data $%s:%s%s %s align=%d %s%s)' % (name, id, ex, 'var' if e.mut else 'const', e.align, val, body))
        else:
            o.append('  (func $%s:%s%s' % (name, id, ex))
            for p, t in e.params: o.append('    (param %s %s)' % (p, t))
            for t in e.results: o.append('    (result %s)' % t)
            for p, t in e.locals: o.append('    (local %s %s)' % (p, t))
            for n, m, i, arg, lab in e.code:
                if m: o.append('    %s $%s:%s%s' % (n, m, i, ' offset=%d' % arg if n == 'ref.data' and arg else ''))
                elif lab == 'sig': o.append('    %s%s%s' % (n, ' (param %s)' % ' '.join(arg[0]), ' (result %s)' % ' '.join(arg[1])))
                elif i: o.append('    %s %s' % (n, i))
                elif n.endswith('.const') or n == 'br_table' : o.append('    %s %s' % (n, arg))
                else: o.append('    ' + n)
            o.append('  )')
    o.append(')')
    return '\n'.join(o) + '\n'


# ------------------------------------------------------------------ engine
def h_put(eng, st, ins_, args):
    n = eng.cstr(st, args[0]); st.trace.append((n.decode(), args[1])); return None


def h_name(eng, st, ins_, args):
    n = eng.cstr(st, args[0]); v = eng.cstr(st, args[1]); st.trace.append((n.decode(), v.decode('latin-1') if v is not None else None)); return None


_e = {}


def eng_for(stack=131072, args=4096):
    if 'e' not in _e:
        pr = program(('libc.c', 'c.c', 'link.c'))
        _e['e'] = engine(pr, hooks={'drv_put': h_put, 'drv_name': h_name}, maxdepth=600, maxforks=30, maxpaths=600, maxsteps=6 * 10 ** 7)
    en = _e['e']
    if (stack, args) not in _e:
        s = State()
        rs = en.start('drv_linit', [en.new_str(s, 'lib/'), stack, args], s)
        if len(rs) != 1 or rs[0].kind != 'ret': raise AnalysisError('init_wcpl was not analysed to its end')
        s = rs[0]; s.frames = []; s.kind = None; s.value = None; s.steps = 0
        _e[(stack, args)] = s
    return en, _e[(stack, args)].fork()


_code = {}


def code(en, n):
    if n not in _code: _code[n] = wasmdrv.code_of(en, n)
    if _code[n] is None: raise AnalysisError('no instruction named %s' % n)
    return _code[n]


def opsof(en, w, order):
    """flat description for the driver"""
    ops = []; names = [None]; ix = {}

    def N(s):
        if s is None: return 0
        if s not in ix: ix[s] = len(names); names.append(s)
        return ix[s]
    for name in order:
        mod = w.mods[name]
        ops += [1, N(name), w.main[1] if w.main and w.main[0] == name else 0]
        seen = set()
        for id, e in mod.items():
            for k, m, i in refs_of(e):
                if m == name or (m, i) in seen: continue
                seen.add((m, i)); t = w.get(m, i)
                iek = {FUNC: 4, GLOBAL: 3, DATA: 2}[k]
                ops += [2, iek, N(m), N(i), VT[t.vt] if isinstance(t, Gl) else 0, int(t.mut) if isinstance(t, (Gl, Da)) else 0]
                if k == FUNC:
                    ps = [p[1] if isinstance(p, tuple) else p for p in (t.params if t else [])]; rs = t.results if t else []
                    ops += [len(ps)] + [VT[p] for p in ps] + [len(rs)] + [VT[r] for r in rs]
        if name != 'crt': ops += [2, 1, N('crt'), N('memory'), 0, 0]
        else: ops += [7, N('memory')]
        for id, e in mod.items():
            if isinstance(e, Gl):
                n = e.init or (None, None, None, 0, None)
                ops += [5, N(id), int(e.exported), VT[e.vt], int(e.mut), code(en, n[0]) if n[0] else 0, N(n[2]), N(n[1]), n[3]]
            elif isinstance(e, Da):
                ops += [6, N(id), int(e.exported), int(e.mut), e.align, len(e.data)] + e.data
                for m, i, toff, soff in e.refs:
                    ops += [4, code(en, 'ref.data'), N(i), toff, N(m), 4, code(en, 'data.put_ref'), 0, soff, 0]
            else:
                ops += [3, N(id), int(e.exported), len(e.params)] + [VT[t] for _, t in e.params] + [len(e.results)] + [VT[t] for t in e.results]
                for p, t in e.params + e.locals: ops += [8, N(p), VT[t]]
                for n, m, i, arg, lab in e.code: ops += [4, code(en, n), N(i), arg, N(m)]
    return ops + [0], names


# ------------------------------------------------------------------ reading the dump
class Rd:
    def __init__(self, tr): self.t = tr; self.i = 0

    def get(self, k):
        n, v = self.t[self.i]
        if n != k: raise AnalysisError('dump out of step: %s for %s' % (n, k))
        self.i += 1
        return v

    def sig(self): return [self.get('param') for _ in range(self.get('params'))], [self.get('result') for _ in range(self.get('results'))]

    def code(self):
        return [(self.get('in'), self.get('arg'), self.get('hasid'))[:2] for _ in range(self.get('codes'))]

    def entry(self, k):
        e = {'mod': self.get('mod'), 'name': self.get('name'), 'imported': self.get('imported'), 'exported': self.get('exported')}
        if k == 'f': e['sig'] = self.sig()
        if k == 'g': e['vt'] = self.get('vt'); e['mut'] = self.get('mut')
        if k in 'tm': 
            for a in ('vt', 'lt', 'n', 'm'): e[a] = self.get(a)
        e['locals'] = [self.get('local') for _ in range(self.get('locals'))]
        e['code'] = self.code()
        return e

    def module(self):
        m = {}
        m['sigs'] = [self.sig() for _ in range(self.get('sigs'))]
        for k, c in (('funcs', 'f'), ('tables', 't'), ('mems', 'm'), ('globals', 'g')): m[k] = [self.entry(c) for _ in range(self.get(k))]
        m['elems'] = [{'esm': self.get('esm'), 'idx': self.get('idx'), 'code': self.code(), 'fidxs': [self.get('fidx') for _ in range(self.get('fidxs'))]} for _ in range(self.get('elems'))]
        m['datas'] = [{'dsm': self.get('dsm'), 'code': self.code(), 'bytes': [self.get('byte') for _ in range(self.get('bytes'))]} for _ in range(self.get('datas'))]
        return m


class Bad(Exception):
    pass


def s32(x): return sx(x & 0xFFFFFFFF, 32)


class Match:
    """the binary module follows the input modules"""

    def __init__(self, en, st, w, m, stack, args):
        self.en = en; self.st = st; self.w = w; self.m = m; self.fi = {}; self.gi = {}; self.da = {}; self.todo = []; self.stack = stack; self.args = args
        self.refd = []; self.tab = []

    def eq(self, a, b, wd=64): return resolve(self.en, self.st, a, wd) == resolve(self.en, self.st, b, wd)

    def bad(self, s): raise Bad(s)

    def run(self):
        m = self.m; w = self.w
        seg = m['datas']
        if len(seg) > 1: self.bad('%d data segments' % len(seg))
        self.base = None; self.bytes = []
        if seg:
            c = seg[0]['code']
            if seg[0]['dsm'] != 0 or len(c) != 2 or c[0][0] != code(self.en, 'i32.const') or not isinstance(c[0][1], int): self.bad('data segment has no constant address')
            self.base = c[0][1] & 0xFFFFFFFF; self.bytes = seg[0]['bytes']
        if len(m['mems']) != 1: self.bad('%d memories' % len(m['mems']))
        if len(m['tables']) != 1: self.bad('%d tables' % len(m['tables']))
        ex = [e['name'] for k in ('funcs', 'globals', 'mems', 'tables') for e in m[k] if e['exported']]
        if sorted(ex) != ['_start', 'memory']: self.bad('exports are %s' % ex)
        el = m['elems']
        if len(el) > 1 or el and (el[0]['idx'] != 0 or el[0]['esm'] != 0 or len(el[0]['code']) != 2 or el[0]['code'][0] != (code(self.en, 'i32.const'), 1)):
            if len(el) != 1 or el[0]['esm'] != 0 or len(el[0]['code']) != 2 or el[0]['code'][0][0] != code(self.en, 'i32.const') or not isinstance(el[0]['code'][0][1], int): self.bad('element segment has another form')
        self.toff = el[0]['code'][0][1] if el else 1; self.slots = el[0]['fidxs'] if el else []
        if self.toff < 1: self.bad('function table slot 0 is not kept for the null pointer')
        t = m['tables'][0]
        if self.slots and not t['n'] >= self.toff + len(self.slots): self.bad('table of %s elements holds %d functions from %d on' % (t['n'], len(self.slots), self.toff))
        if t['lt'] == 1 and t['m'] < t['n']: self.bad('table limits')
        imp = [i for i, f in enumerate(m['funcs']) if f['imported']]
        if imp != list(range(len(imp))): self.bad('imported functions do not come first')
        st = [i for i, f in enumerate(m['funcs']) if f['exported'] and not f['imported']]
        if len(st) != 1: self.bad('%d exported functions' % len(st))
        self.func(st[0], (w.main[0], '_start'))
        if any(not isinstance(e, (Fn, Im)) for e in ()): pass
        while self.todo: self.todo.pop()()
        inv = {v for v in self.fi.values()}
        for i, f in enumerate(m['funcs']):
            if i not in self.fi: 
                if (f['mod'], f['name']) not in ((w.main[0], 'main'),): self.bad('function %s:%s is carried along unused' % (f['mod'], f['name']))
        for i, g in enumerate(m['globals']):
            if i not in self.gi: self.bad('global %s:%s is carried along unused' % (g['mod'], g['name']))
        self.layout()

    def func(self, i, ent):
        m = self.m
        if not isinstance(i, int) or i >= len(m['funcs']): self.bad('function index %s out of range' % i)
        if i in self.fi:
            if self.fi[i] != ent: self.bad('function %d stands for both %s:%s and %s:%s' % (i, *self.fi[i], *ent))
            return
        if ent in self.fi.values(): self.bad('%s:%s is there twice' % ent)
        self.fi[i] = ent
        e = self.w.get(*ent); f = m['funcs'][i]
        ps = [VT[p[1] if isinstance(p, tuple) else p] for p in e.params]
        if f['sig'] != (ps, [VT[r] for r in e.results]): self.bad('signature of %s:%s is %s' % (*ent, f['sig']))
        if isinstance(e, Im):
            if not f['imported'] or (f['mod'], f['name']) != ent: self.bad('call of the subsystem function %s:%s goes to %s:%s' % (*ent, f['mod'], f['name']))
            return
        if f['imported']: self.bad('%s:%s became an import' % ent)
        if f['locals'] != [VT[t] for _, t in e.locals]: self.bad('locals of %s:%s' % ent)
        self.todo.append(lambda: self.body(ent, e, f['code']))

    def body(self, ent, e, got):
        want = list(e.code)
        if len(got) != len(want) + 1: self.bad('%s:%s has %d instructions for %d' % (*ent, len(got) - 1, len(want)))
        if got[-1][0] != code(self.en, 'end'): self.bad('%s:%s has no end' % ent)
        labs = []; regs = {p: k for k, (p, t) in enumerate(e.params + e.locals)}; brt = 0
        for (n, mod, id, arg, lab), (gn, ga) in zip(want, got):
            here = '%s in %s:%s' % (n, *ent)
            if n == 'ref.data':
                if gn != code(self.en, 'i32.const'): self.bad(here + ' is not an address')
                self.data(ga, (mod, id), arg, here); continue
            if n == 'ref.func':
                if gn != code(self.en, 'i32.const'): self.bad(here + ' is not a table index')
                self.slot(ga, (mod, id), here); continue
            if gn & 0xFFFFFFFF != code(self.en, n) & 0xFFFFFFFF: self.bad('%s became instruction %x' % (here, gn))
            if n in CALLS: self.func(ga, (mod, id))
            elif n in GETS: self.glob(ga, (mod, id))
            elif n.startswith('local.'):
                if ga != regs[id]: self.bad('%s %s addresses local %s' % (here, id, ga))
            elif n in ('block', 'loop', 'if'): labs.append(id)
            elif n == 'end': labs.pop()
            elif n in ('br', 'br_if'):
                if ga != list(reversed(labs)).index(id): self.bad('%s %s goes to depth %s' % (here, id, ga))
            elif n == 'call_indirect':
                if not isinstance(ga, int) or ga >= len(self.m['sigs']) or self.m['sigs'][ga] != ([VT[p] for p in arg[0]], [VT[r] for r in arg[1]]): self.bad(here + ' has another type')
            elif n == 'i32.const':
                b = resolve(self.en, self.st, arg, 64)[:32]
                g = resolve(self.en, self.st, ga, 64)
                if g != tuple(b) + (b[31],) * 32: self.bad(here + ' has another value')
            elif n.endswith('.const') or n in ('i32.load', 'i32.store', 'br_table'):
                if not self.eq(ga, arg): self.bad(here + ' has another value')

    def slot(self, k, ent, here):
        if not isinstance(k, int) or not 0 <= k - self.toff < len(self.slots): self.bad('%s: table index %s is not filled' % (here, k))
        self.func(self.slots[k - self.toff], ent)

    def glob(self, i, ent):
        m = self.m
        if not isinstance(i, int) or i >= len(m['globals']): self.bad('global index %s out of range' % i)
        if i in self.gi:
            if self.gi[i] != ent: self.bad('global %d stands for both %s:%s and %s:%s' % (i, *self.gi[i], *ent))
            return
        if ent in self.gi.values(): self.bad('global %s:%s is there twice' % ent)
        self.gi[i] = ent
        e = self.w.get(*ent); g = m['globals'][i]
        if g['imported'] or g['vt'] != VT[e.vt] or g['mut'] != int(e.mut): self.bad('global %s:%s has another type' % ent)
        if len(g['code']) != 2 or g['code'][1][0] != code(self.en, 'end'): self.bad('global %s:%s has no initial value' % ent)
        gn, ga = g['code'][0]; here = 'initial value of %s:%s' % ent
        if ent[0] == 'crt' and ent[1] in ('sp$', 'stack_base', 'heap_base'):
            if gn != code(self.en, 'i32.const') or not isinstance(ga, int): self.bad(here + ' is not constant')
            setattr(self, ent[1].strip('$'), ga & 0xFFFFFFFF); return
        n = e.init
        if n is None:
            if gn != code(self.en, e.vt + '.const') or not self.eq(ga, 0): self.bad(here + ' is not zero')
        elif n[0] == 'ref.data': 
            if gn != code(self.en, 'i32.const'): self.bad(here + ' is not an address')
            self.data(ga, (n[1], n[2]), n[3], here)
        elif n[0] == 'ref.func': 
            if gn != code(self.en, 'i32.const'): self.bad(here + ' is not a table index')
            self.slot(ga, (n[1], n[2]), here)
        elif gn != code(self.en, n[0]) or not self.eq(ga, n[3]): self.bad(here + ' is another')

    def data(self, a, ent, off, here):
        """the address a must be that of ent plus off"""
        en = self.en
        if isinstance(off, int) and isinstance(a, int): b = (a - off) & 0xFFFFFFFF
        else:
            b = self.sub(a, off)
            if b is None: self.bad('%s: address %r is not the object plus its offset' % (here, en.simp(self.st, a)))
        if ent in self.da:
            if self.da[ent] != b: self.bad('%s: %s:%s is at both %s and %s' % (here, *ent, self.da[ent], b))
            return
        self.da[ent] = b
        e = self.w.get(*ent)
        if self.base is None or b < self.base or b + len(e.data) > self.base + len(self.bytes): self.bad('%s:%s at %s is outside the data segment' % (*ent, b))
        if b == 0 or b % e.align: self.bad('%s:%s at %s is not aligned to %d' % (*ent, b, e.align))
        self.todo.append(lambda: self.content(ent, e, b))

    def sub(self, a, off):
        """constant c with a = c + off (mod 2^32 or 2^64), off unknown"""
        lo = resolve(self.en, self.st, a, 64)
        for e in range(self.base or 0, (self.base or 0) + len(self.bytes) + 1):
            w = binop('add', 64, off, e)
            if resolve(self.en, self.st, w, 64)[:32] == lo[:32]: return e
            for t in (trunc(w, 64, 32), binop('add', 32, trunc(off, 64, 32), e)):
                if resolve(self.en, self.st, t, 32) == lo[:32]: return e
        return None

    def content(self, ent, e, b):
        g = self.bytes[b - self.base:b - self.base + len(e.data)]
        done = set()
        for m, i, toff, soff in e.refs:
            if isinstance(soff, int):
                w = g[soff:soff + 4]; done |= set(range(soff, soff + 4))
                v = ()
                for x in w: v += tuple(resolve(self.en, self.st, x, 8))
                v = int.from_bytes(bytes(w), 'little') if all(isinstance(x, int) for x in w) else mkbits(v)
                self.data(v, (m, i), toff, 'pointer at %d of %s:%s' % (soff, *ent))
        for k, (x, y) in enumerate(zip(e.data, g)):
            if k not in done and not self.eq(x, y, 8): self.bad('byte %d of %s:%s differs' % (k, *ent))

    def layout(self):
        l = [(a, a + len(self.w.get(*e).data), e, self.w.get(*e)) for e, a in self.da.items()]
        for (a, b, e, d), (a2, b2, e2, d2) in itertools.combinations(l, 2):
            if a < b2 and a2 < b and (d.mut or d2.mut): self.bad('%s:%s and %s:%s overlap' % (*e, *e2))
        end = self.base + len(self.bytes) if self.base is not None else 1
        sp = getattr(self, 'sp', None); hp = getattr(self, 'heap_base', None); sb = getattr(self, 'stack_base', None)
        pages = self.m['mems'][0]['n']; top = end
        if sp is not None:
            if sp % 16 or sp < end + self.stack: self.bad('stack pointer starts at %d: data ends at %d, stack of %d' % (sp, end, self.stack))
            top = max(top, sp)
        if sb is not None:
            if sb != (sp if sp is not None else sb) or sb % 16 or sb < end + self.stack: self.bad('stack_base is %d' % sb)
            top = max(top, sb + self.args)
        if hp is not None:
            if hp % 16 or hp < (sb or sp or end + self.stack) + self.args: self.bad('heap_base is %d' % hp)
            top = max(top, hp)
        if not isinstance(pages, int) or pages * 65536 < top: self.bad('%s pages of memory for %d bytes' % (pages, top))


def world_check(c, rule, key, w, order=None, textmode=False, stack=131072, args=4096, want=None):
    en, st = eng_for(stack, args)
    where = 'w.c:link_wat_modules'
    for n, m in w.lib.items():
        fn = n
        if n == 'crt': fn = {0: 'crt', 1: 'crt.void', 2: 'crt.argv' if args == 0 else 'crt.args'}[w.main[1] if w.main else 0]
        set_input(st, 'lib/%s.wo' % fn, list(text_of(n, m, w).encode()))
    for n, t in w.files.items(): set_input(st, n, list(t.encode()))
    order = order or list(w.mods)
    if textmode:
        fs = []
        for n in order: set_input(st, 'in/%s.wo' % n, list(text_of(n, w.mods[n], w).encode())); fs.append('in/%s.wo' % n)
        arr = en.new_obj(st, 'files', 'undef', 8 * len(fs))
        for i, f in enumerate(fs): en.store(st, P(arr.obj, 8 * i), 8, en.new_str(st, f))
        rs = en.start('drv_linkfiles', [arr, len(fs)], st)
    else:
        ops, names = opsof(en, w, order)
        o = en.new_obj(st, 'ops', 'undef', 8 * len(ops))
        for i, v in enumerate(ops): en.store(st, P(o.obj, 8 * i), 8, v & M(64) if isinstance(v, int) else zext(v, v.w, 64) if v.w < 64 else v)
        na = en.new_obj(st, 'names', 'undef', 8 * len(names))
        for i, v in enumerate(names): en.store(st, P(na.obj, 8 * i), 8, en.new_str(st, v) if v is not None else 0)
        rs = en.start('drv_link', [o, na], st)
    for i, s in enumerate(rs):
        k = key
        if s.kind == 'cut': c.undecided(rule, k, s.note); continue
        if want == 'refused':
            ok = s.kind == 'exit' and s.value not in (('exit', (0,)),) and any(kk[0] == 'out' and 'stderr' in str(kk[1]) for kk in s.data)
            c.ob(rule, k, ok, 'modules that cannot be linked: %s' % ('linked' if s.kind == 'ret' else 'ends as %s' % (s.value,)), where, 'a diagnostic and failure', s.kind)
            continue
        if s.kind != 'ret': c.ob(rule, k, False, 'linking stops: %s %s' % (s.value, errtext(s)), where, 'linked', s.kind); continue
        try:
            tr = s.trace; j = max(q for q, t in enumerate(tr) if t[0] == 'binary')
            m = Rd(tr[j + 1:]).module()
            Match(en, s, w, m, stack, args).run()
            c.ob(rule, k, True)
        except Bad as e: c.ob(rule, k, False, str(e), where, 'the entity named in the input', 'another')
    c.seen('links', key)


def errtext(s):
    for k in s.data:
        if k[0] == 'out' and 'stderr' in str(k[1]):
            t = []; n = s.data[k]
            while n is not None: t.append(n[1]); n = n[0]
            return ''.join(chr(x) if isinstance(x, int) else '?' for q in reversed(t) for x in q)[-150:]
    return ''


def W(m, more=None, wasi=None, **k):
    """world with a main module, an optional second one and the usual runtime"""
    mods = {'m': dict(m)}
    mods['m'].setdefault('_start', start()); 
    if more: mods.update(more)
    return World(mods, ('m', 1), wasi, {'crt': crt(**k)})


def u(n, w=8): return sym(n, w)


def datagraphs():
    """every graph of references among three objects, all reachable ones observed from main"""
    for g in range(512):
        edges = [(i, j) for i in range(3) for j in range(3) if g >> (3 * i + j) & 1]
        yield g, edges


def fam_data(c, part, n):
    for g, edges in list(datagraphs())[part::n]:
        ds = {}
        for i in range(3):
            out = [j for a, j in edges if a == i]
            mut = bool((g * 7 + i * 3) >> 2 & 1); al = (4, 8, 16, 4)[(g + i) % 4] if out else (1, 2, 4, 8)[(g // 3 + i) % 4]
            size = 4 * len(out) + (g + i) % 3 + (0 if out else 1)
            by = [0] * (4 * len(out)) + [u('d%d_%d' % (i, k)) for k in range(size - 4 * len(out))]
            if not mut and not out: by = [10 * i + k + 1 for k in range(size)]
            ds['d%d' % i] = Da(by, [('m', 'd%d' % j, 0 if (g + j) % 2 else u('off%d%d' % (i, j), 64), 4 * k) for k, j in enumerate(out)], al, mut)
        seen = {0}
        while True:
            n2 = seen | {j for a, j in edges if a in seen}
            if n2 == seen: break
            seen = n2
        roots = [0] + ([] if g % 2 else [i for i in (2, 1) if i not in seen])
        code = []
        for r in roots: code += [dref('m', 'd%d' % r, 0 if g % 3 else 4 * r), DROP]
        world_check(c, 'data', 'graph%d' % g, W(dict(ds, main=Fn(*code, C(0), results=['i32']))))


def fam_share(c, part=0, of=1):
    """constants with the same or unknown contents; variables with the contents of constants"""
    n = 0
    for a, b in itertools.product([(True, 4), (False, 1), (False, 4), (False, 8)], repeat=2):
        for x, y in (([1, 2, 3, 4], [1, 2, 3, 4]), ([1, 2, 3, 4], [1, 2, 3]), ([7], [8]), ([0, 0], [0]), ([0] * 4, [0] * 8), ([5], [5])):
            n += 1
            if n % of != part: continue
            m = {'x': Da(x, (), a[1], a[0]), 'y': Da(y, (), b[1], b[0]), 'z': Da([9], (), 1, False), 'v': Da(x, (), 2, True),
                 'main': Fn(dref('m', 'x'), DROP, dref('m', 'v'), DROP, dref('o' if n % 2 else 'm', 'y'), DROP, dref('m', 'z'), DROP, C(0), results=['i32'])}
            more = None
            if n % 2: more = {'o': {'y': m.pop('y'), 'x': Da([7, 7], (), 2, False)}}
            world_check(c, 'sharing', 'pair%d' % n, W(m, more))


def fam_calls(c, part, n):
    """call graphs over three functions in two modules with the same names, with globals, data and table entries"""
    for g in range(part, 512, n):
        fs = {}
        for i in range(3):
            code = []
            for j in range(3):
                if g >> (3 * i + j) & 1:
                    mod = ('m', 'a', 'z')[j]
                    code += [call(mod, 'f')] if (g + i + j) % 3 else [fref(mod, 'f'), DROP]
            k = (g + i) % 5
            if k == 0: code += [gget('m', 'g'), DROP]
            if k == 1: code += [gget('z', 'g'), gset('a', 'g')]
            if k == 2: code += [dref('a', 'f2', u('o', 64)), DROP]
            if k == 3: code += [C(u('k', 64)), DROP]
            if k == 4: code += [call(WASI, 'fd_close')]
            fs[i] = Fn(*code)
        for i, nm in enumerate(('m', 'a', 'z')): pass
        m = {'f': fs[0], 'g': Gl('i32', True, C(1)), 'h': Fn(call('z', 'f')), 'main': Fn(call('m', 'f'), *([call('z', 'f')] if g % 2 else []), C(0), results=['i32'])}
        a = {'f': fs[1], 'g': Gl('i32', True), 'f2': Da([u('q'), u('r')], (), 2)}
        z = {'f': fs[2], 'g': Gl('i32', g % 3 == 0, C(77))}
        w = W(m, {'a': a, 'z': z}, {'fd_close': Im(), 'fd_x': Im(['i32'], ['i32'])})
        world_check(c, 'references', 'graph%d' % g, w, order=(['m', 'a', 'z'], ['z', 'm', 'a'], ['a', 'z', 'm'])[g % 3])


def fam_globals(c):
    for vt in VT:
        for mut in (True, False):
            for k, init in (('zero', None), ('value', ins(vt + '.const', arg=u('v', 64)) if vt != 'v128' else None)):
                m = {'g': Gl(vt, mut, init), 'main': Fn(gget('m', 'g'), DROP, gget('o', 'g'), DROP, C(0), results=['i32'])}
                world_check(c, 'globals', '%s_%d_%s' % (vt, mut, k), W(m, {'o': {'g': Gl(vt, not mut, None if init else ins(vt + '.const', arg=u('v2', 64)) if vt != 'v128' else None)}}))
    for mut in (True, False):
        for tgt in ('m', 'o'):
            for off in (0, 4, u('off', 64)):
                m = {'g': Gl('i32', mut, dref(tgt, 'd', off)), 'd': Da([1, 2, 3, 4, 5], (), 4), 'main': Fn(gget('m', 'g'), DROP, C(0), results=['i32'])}
                world_check(c, 'globals', 'address_%d_%s_%s' % (mut, tgt, off if isinstance(off, int) else 'u'), W(m, {'o': {'d': Da([u('x')] * 6, [('m', 'd', 0, 0)], 8)}}))
            m = {'g': Gl('i32', mut, fref(tgt, 'f')), 'f': Fn(ins('nop')), 'k': Fn(ins('nop'), ins('nop')),
                 'main': Fn(gget('m', 'g'), DROP, fref('m', 'k'), DROP, fref('m', 'main'), DROP, fref('m', 'k'), DROP, C(0), results=['i32'])}
            world_check(c, 'globals', 'function_%d_%s' % (mut, tgt), W(m, {'o': {'f': Fn(ins('return'), ins('nop'))}}))


def fam_wasi(c):
    sub = {'fd_close': Im(['i32'], ['i32']), 'fd_write': Im(['i32', 'i32', 'i32', 'i32'], ['i32']), 'proc_exit': Im(['i32']), 'clock': Im(['i64'], ['f64'])}
    n = 0
    for perm in itertools.permutations(sub, 3):
        a, b, d = perm; n += 1
        m = {'main': Fn(call(WASI, a), call('o', 'f'), call(WASI, b), C(0), results=['i32']), 'unused': Fn(call(WASI, 'clock'))}
        o = {'f': Fn(call(WASI, b), call(WASI, d), call('o', 'g'), fref(WASI, a), DROP), 'g': Fn(call(WASI, a), fref('m', 'main'), DROP)}
        world_check(c, 'subsystem', 'order%d' % n, W(m, {'o': o}, sub), order=['m', 'o'] if n % 2 else ['o', 'm'])


def fam_sizes(c, part, of, tier):
    n = 0
    for stack in (1024, 1025, 65536, 131072, 131081, 16777216):
        for args in (0, 512, 4096, 4097, 65536):
            for size in (1, 15, 16, 3000) if tier == 'thorough' else (1, 16):
                n += 1
                if n % of != part: continue
                m = {'d': Da([u('b%d' % i) for i in range(min(size, 16))] + [0] * (size - 16), (), 1), 'main': Fn(dref('m', 'd'), gget('crt', 'sp$'), gget('crt', 'heap_base'), gget('crt', 'stack_base'), DROP, DROP, DROP, DROP, C(0), results=['i32'])}
                world_check(c, 'limits', '%d_%d_%d' % (stack, args, size), W(m), stack=stack, args=args)


def fam_text(c):
    """bodies with locals, labels, table jumps and types, read from object files"""
    sig = lambda p, r: ins('call_indirect', arg=(p, r), lab='sig')
    L = lambda n: ins('local.get', id=n); B = lambda n, l: ins(n, id=l)
    f = Fn(B('block', '$1$'), B('loop', '$2$'), L('$x'), B('br_if', '$1$'), L('$y'), B('br_if', '$2$'), B('block', '$3$'), B('br', '$2$'), ins('end', id='$3$'), B('br', '$1$'),
           ins('end', id='$2$'), ins('end', id='$1$'), L('$p'), L('$q'), ins('local.set', id='$x'), ins('local.tee', id='$z'), DROP,
           params=[('$p', 'i32'), ('$q', 'i32')], results=[], locals=[('$x', 'i32'), ('$y', 'i32'), ('$z', 'i32'), ('$w', 'f64')])
    sub = {'fd_close': Im(['i32'], ['i32'])}
    for n, (s1, s2) in enumerate(itertools.product([([], []), (['i32'], ['i64']), (['i64', 'f32'], ['f64']), (['i32', 'i32'], [])], repeat=2)):
        m = {'main': Fn(C(1), C(2), call('a', 'f'), sig(*s1), sig(*s2), call('z', 'k'), C(0), results=['i32']), 'd': Da([1, 2, 3, 4, 0, 0, 0, 0], [('a', 'd', 4, 4)], 4)}
        a = {'f': f, 'd': Da(list(b'hello\0\0\0'), (), 1, False), 'k': Fn(sig(*s2), dref('m', 'd', 2), DROP)}
        z = {'k': Fn(sig(*s1), call('a', 'k'), call(WASI, 'fd_close'), gget('z', 'gg'), DROP, params=[('$i', 'i64')][:n % 2]), 'gg': Gl('f64', False, ins('f64.const', arg=0))}
        z['gg'].init = None
        w = W(m, {'a': a, 'z': z}, sub)
        world_check(c, 'files', 'bodies%d' % n, w, order=(['m', 'a', 'z'], ['z', 'm', 'a'])[n % 2], textmode=True)


def fam_library(c):
    """which library object is taken"""
    for main in (1, 2):
        for args in (0, 4096):
            more = {'_argc': Gl('i32', True, C(1)), '_argv': Gl('i32', True, dref('crt', 'v')), 'v': Da([0] * 4, (), 4)} if main == 2 else {}
            w = World({'m': {'_start': start('m', main == 2), 'main': Fn(call('lb', 'f'), C(0), params=[('$c', 'i32'), ('$v', 'i32')] if main == 2 else [], results=['i32'])}}, ('m', main), {},
                      {'crt': crt(**more), 'lb': {'f': Fn(call('lc', 'g'))}, 'lc': {'g': Fn(call('lb', 'h')) if 0 else Fn(dref('lc', 'd'), DROP), 'd': Da([3], (), 1)}})
            # objects of the other kinds of program must not be taken
            other = World({}, None, {}, {'crt': {'initialize': Fn(ins('nop'))}})
            for k in ('crt', 'crt.void', 'crt.argv', 'crt.args'): w.files.setdefault('lib/%s.wat' % k, text_of('crt', {'initialize': Fn(ins('nop'))}, other))
            for k in ('crt', 'crt.void', 'crt.argv', 'crt.args'):
                if k != {1: 'crt.void', 2: 'crt.args' if args else 'crt.argv'}[main]: w.files['lib/%s.wo' % k] = w.files['lib/%s.wat' % k]
            for t in (0, 1): world_check(c, 'library', 'main%d_args%d_%d' % (main, args, t) if not t else 'files_main%d_args%d' % (main, args), w, args=args, textmode=False if main == 2 else bool(t))
    # a module given on the command line is not looked up in the library
    w = W({'main': Fn(call('lb', 'f'), C(0), results=['i32'])}, {'lb': {'f': Fn(ins('nop'))}})
    w.files['lib/lb.wo'] = text_of('lb', {'f': Fn(ins('return'), ins('return'))}, w)
    world_check(c, 'library', 'given', w)


def fam_errors(c):
    Z = [C(0)]
    def mm(*code): return {'main': Fn(*code, C(0), results=['i32'])}
    E = {
        'function': W(mm(call('o', 'nof')), {'o': {'f': Fn()}}), 'global': W(mm(gget('o', 'nog'), DROP), {'o': {'g': Gl()}}), 'data': W(mm(dref('o', 'nod'), DROP), {'o': {'d': Da([1])}}),
        'own.function': W(mm(call('m', 'nof'))), 'own.data': W(mm(dref('m', 'nod'), DROP)), 'own.global': W(mm(gset('m', 'nog'))),
        'table': W(mm(fref('o', 'nof'), DROP), {'o': {'f': Fn()}}), 'module': W(mm(call('nomod', 'f'))), 'module.data': W(mm(dref('nomod', 'd'), DROP)),
        'in.data': W(dict(mm(dref('m', 'd'), DROP), d=Da([0] * 4, [('m', 'nod', 0, 0)], 4))), 'in.global': W(dict(mm(gget('m', 'g'), DROP), g=Gl('i32', True, dref('m', 'nod')))),
        'in.global.function': W(dict(mm(gget('m', 'g'), DROP), g=Gl('i32', True, fref('m', 'nof')))),
        'kind.func.global': W(dict(mm(call('m', 'g')), g=Gl())), 'kind.func.data': W(dict(mm(call('m', 'd')), d=Da([1]))), 'kind.data.func': W(dict(mm(dref('m', 'f'), DROP), f=Fn())),
        'kind.global.func': W(dict(mm(gget('m', 'f'), DROP), f=Fn())), 'kind.data.global': W(dict(mm(dref('m', 'g'), DROP), g=Gl())), 'kind.global.data': W(dict(mm(gget('m', 'd'), DROP), d=Da([1]))),
        'kind.table.data': W(dict(mm(fref('m', 'd'), DROP), d=Da([1]))),
    }
    for k, w in E.items(): world_check(c, 'refusal', k, w, want='refused')
    w = W(mm()); w.mods['m'].pop('main'); world_check(c, 'refusal', 'no.main.function', w, want='refused')
    w = W(mm()); w.main = ('zz', 1); world_check(c, 'refusal', 'no.main.module', w, want='refused')
    w = W(mm()); w.mods['m'].pop('_start'); world_check(c, 'refusal', 'no.start', w, want='refused')
    w = W(mm(), {'o': {'f': Fn()}}); world_check(c, 'refusal', 'module.twice', w, order=['m', 'o', 'o'], want='refused')
    w = W(mm()); world_check(c, 'refusal', 'main.twice', w, order=['m', 'm'], want='refused')


def task(c, it):
    k, a, b = it
    if k == 'data': fam_data(c, a, b)
    elif k == 'calls': fam_calls(c, a, b)
    elif k == 'share': fam_share(c, a, b)
    elif k == 'sizes': fam_sizes(c, a, 8, b)
    else: {'globals': fam_globals, 'wasi': fam_wasi, 'text': fam_text, 'library': fam_library, 'errors': fam_errors}[k](c)


def run(c):
    eng_for()
    items = [('data', i, 24 if c.tier == 'thorough' else 48) for i in range(24)] + [('calls', i, 24 if c.tier == 'thorough' else 72) for i in range(24)] + [('share', i, 12) for i in range(12)] + \
            [('sizes', i, c.tier) for i in range(8)] + [(x, 0, c.tier) for x in ('globals', 'wasi', 'text', 'library', 'errors')]
    c.pmap(items[::-1], task)
    for r, n in (('data', 240), ('references', 150), ('sharing', 90), ('globals', 30), ('subsystem', 20), ('limits', 55), ('files', 14), ('library', 7), ('refusal', 22)): c.need(r, n)
