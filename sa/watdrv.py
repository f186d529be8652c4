"""Shared by the checks on the object text format: write abstractly, read the text back abstractly, compare."""
from model import *
import wasmdrv
from symdec import resolve
from wasmdrv import push_mark


def digit(eng, st, m, lo=49, hi=57):
    eng.assume_set(st, m, 8, [(lo, hi)])
    return m


def push_items(eng, st, ins, items, pcb):
    f = eng.prog.func('cbput')
    if f is None: return NOTHANDLED
    p = eng.new_obj(st, 'mark')
    for i, b in enumerate(items): eng.store(st, P(p.obj, i), 1, b)
    eng.push(st, f, [p, len(items), pcb], None, None, ins)
    return None


def dec_hook(signed, w):
    """decimal numeral of an unknown: partition into zero, positive, negative; one byte stands for the digits"""
    def h(eng, st, ins, args):
        v = args[0]
        if isinstance(v, int): return NOTHANDLED
        pcb = args[1]
        v64 = v if w == 64 else sext(v, w, 64) if signed else zext(v, w, 64)
        def fn(eng, st, fr, ins):
            out = []
            h = 1 << 63
            for items, rng in (([48], [(0, 0)]), ([None], [(1, h - 1 if signed else M(64))]), ([45, None], [(h, M(64))] if signed else [])):
                s = st.fork()
                try:
                    eng.assume_set(s, v64, 64, rng)
                except Infeasible: continue
                x = binop('sub', 64, 0, v64) if items[0] == 45 else v64
                if None in items: items = items[:-1] + [digit(eng, s, marker('abs64', x))]
                push_items(eng, s, ins, items, pcb)
                out.append(s)
            return out
        return Outcome(fn)
    return h


HOOKS = {'cbput' + k: dec_hook(sg, w) for k, sg, w in (('d', True, 32), ('ld', True, 64), ('u', False, 32), ('lu', False, 64),
                                                        ('llu', False, 64), ('z', False, 64), ('ll', True, 64))}


def hex_out(tag, w):
    def h(eng, st, ins, args):
        if isinstance(args[0], int): return NOTHANDLED
        p = eng.to_ptr(args[1])
        m = digit(eng, st, marker(tag, args[0]))
        store_items(eng, st, p, list(b'0x1.') + [m] + list(b'p+0'))
        return p
    return h


def hex_in(tag, w):
    def h(eng, st, ins, args):
        it = str_items(eng, st, args[0])
        if it:
            ms = [x for x in it if isinstance(x, E)]
            if len(ms) == 1 and ms[0].op == 'fmt' and ms[0].a[0] == tag and len(it) == 8:
                return ms[0].a[1]
        return NOTHANDLED
    return h


HOOKS.update({'udtohex': hex_out('hexd', 64), 'uftohex': hex_out('hexf', 32), 'hextoud': hex_in('hexd', 64), 'hextouf': hex_in('hexf', 32)})


def h_put(eng, st, ins, args):
    n = eng.cstr(st, args[0])
    st.trace.append(('put', n.decode(), args[1]))
    return None


HOOKS['drv_put'] = h_put


def setup():
    pr = program(('libc.c', 'w.c', 'wat.c'))
    return pr, engine(pr, hooks=HOOKS, maxforks=14, maxpaths=3000, maxsteps=6000000)


_init = {}


def initial(en):
    s = _init.get(id(en))
    if s is None:
        rs = en.start('drv_init', [], State())
        if len(rs) != 1 or rs[0].kind != 'ret': raise AnalysisError('initialisation not resolved: %s' % [(r.kind, r.note, r.value) for r in rs][:3])
        s = rs[0]
        # warm up tables that are built on first use
        s = cont(s)
        p = en.new_str(s, 'nop')
        rs = en.start('name_instr', [p], s)
        if len(rs) == 1 and rs[0].kind == 'ret': s = rs[0]
        s = _init[id(en)] = cont(s)
    n = s.fork(); n.frames = []; n.kind = None; n.value = None; n.steps = 0; n.trace = []
    return n


def cont(s):
    n = s.fork(); n.frames = []; n.kind = None; n.value = None; n.steps = 0; n.note = None
    return n


def roundtrip(en, drv, mkargs, prep=None):
    """-> list of (status, detail): status in ok, diff, stop, cut"""
    st = initial(en)
    f = stream(st, 'out')
    args = mkargs(en, st)
    out = []
    for s in en.start(drv, args + [f], st):
        if s.kind == 'cut': out.append(('cut', s.note)); continue
        if s.kind != 'ret': out.append(('stop', 'writing: %s' % (s.value,))); continue
        text = out_get(s, f)
        n = cont(s)
        set_input(n, 'foo.o', text)
        p = en.new_str(n, 'foo.o')
        for r in en.start('drv_read', [p], n):
            if r.kind == 'cut': out.append(('cut', r.note)); continue
            if r.kind != 'ret':
                out.append(('stop', 'reading back stops: %s %s' % (r.value, err_text(r)))); continue
            tr = [(t[1], t[2]) for t in r.trace if t[0] == 'put']
            i = tr.index(('reread', 0)); b = tr.index(('begin', 0))
            x, y = tr[b + 1:i], tr[i + 1:]
            d = None
            if len(x) != len(y): d = 'shape differs: %r' % (next(((k, p, q) for k, (p, q) in enumerate(zip(x, y)) if p[0] != q[0]), (len(x), len(y))),)
            else:
                for k, (p, q) in enumerate(zip(x, y)):
                    if p[0] != q[0] or resolve(en, r, p[1], 64) != resolve(en, r, q[1], 64):
                        d = '%s (item %d): %r reads back as %r' % (p[0], k, en.simp(r, p[1]), en.simp(r, q[1])); break
            out.append(('ok', None) if d is None else ('diff', d))
    return out


def err_text(s):
    t = out_get(s, 'stderr') if False else []
    for k in s.data:
        if k[0] == 'out' and 'stderr' in str(k[1]): 
            n = s.data[k]; r = []
            while n is not None: r.append(n[1]); n = n[0]
            for cc in reversed(r): t.extend(cc)
    return ''.join(chr(x) if isinstance(x, int) else '?' for x in t)[:120]
