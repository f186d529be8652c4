"""A module held in memory is pushed through the object text writer, and the text it produces (with unknown numbers kept
as unknowns inside the text) is pushed through the object text reader, both by abstract interpretation of the compiler's
IR; the module that comes back is compared field by field, bit by bit, on every path, with the one that went in.  This is
done for every instruction with an object-text form and all values of its operands, for every kind of import and
export, for function headers over the value types, for all 256 data bytes in data strings, and for pointer slots."""
from watdrv import *
from wasmdrv import code_of
from oracle import wasm_opcodes as spec
LEVEL = 'other'

VT = {'i32': 0x7F, 'i64': 0x7E, 'f32': 0x7D, 'f64': 0x7C, 'v128': 0x7B}


TASKS = []


def judge(c, rule, key, en, drv, mkargs, where, alt=None):
    TASKS.append((rule, key, en, drv, mkargs, where, alt))


def task(c, t):
    rule, key, en, drv, mkargs, where, alt = t
    res = roundtrip(en, drv, mkargs)
    bad = [r for r in res if r[0] in ('diff', 'stop')]
    if bad and alt:
        r2 = roundtrip(en, drv, alt)
        if not any(r[0] in ('diff', 'stop') for r in r2): res = r2; bad = []
    if bad: c.ob(rule, key, False, 'object text does not read back as written: %s: %s' % (key, bad[0][1]), where, 'the same module', bad[0][1])
    elif not res or any(r[0] == 'cut' for r in res): c.undecided(rule, key, res[:1])
    else: c.ob(rule, key, True)


def run(c):
    pr, en = setup()
    w = pr.func('write_wat_module'); r = pr.func('read_wat_object_module')
    if w is None or r is None: raise AnalysisError('object text writer or reader not found')
    where = w.mod.fwhere(w)
    M32 = [(0, M(32))]
    for mn, op, imm in spec.all_instructions():
        if imm in ('t*', 'x,y', 'x+m', 'ht') or mn.startswith(('table.', 'elem.', 'data.')): continue
        v = code_of(en, mn)
        if v is None or v < 0: c.undecided('instruction', mn, 'mnemonic unknown'); continue
        forms = []
        def form(key, id=0, mod=0, a=0, b=0, n=0, rng=None):
            def mk_(en, st, v=v):
                if callable(a): x = a(en, st)
                else: x = a
                y = b(en, st) if callable(b) else b
                for s_, i in (rng or {}).items(): en.assume_set(st, sym(s_, 64), 64, i)
                return [v, en.new_str(st, id) if id else 0, en.new_str(st, mod) if mod else 0, x, y, n]
            forms.append((key, mk_))
        if imm == '' or imm in ('m', 'mm'): form(mn)
        elif imm == 'bt':
            if mn == 'if':
                for t, x in [('void', 0x40)] + sorted(VT.items()): form(mn + ' ' + t, a=x)
            else: form(mn, id='$B1'[1:], a=0x40)
        elif imm == 'l' or mn.startswith('local.'): form(mn, id='lab$1')
        elif imm == 'ls':
            for n in (1, 2, 3, 26, 127, 128, 129, 257): form('%s %d' % (mn, n), n=n)
        elif imm == 'x': form(mn, id='f_1', mod='wasi.x')
        elif imm == 'ci':
            continue
        elif imm == 'i32': form(mn, a=lambda en, st: sext(sym('a', 32), 32, 64))
        elif imm == 'i64': form(mn, a=sym('a', 64))
        elif imm == 'f32':
            form(mn, a=lambda en, st: zext(sym('a', 32), 32, 64), rng=None)
        elif imm == 'f64': form(mn, a=sym('a', 64), rng={'a': [(0, 0x7FF << 52), (1 << 63, 0xFFF << 52)]})
        elif imm == 'v128': form(mn, a=sym('a', 64), b=sym('b', 64))
        elif imm == 'memarg':
            for k in range(5):
                form('%s align=%d' % (mn, 1 << k), a=sym('a', 64), b=k, rng={'a': M32})
                if mn in ('v128.load32_zero', 'v128.load64_zero'):  # kept with the operands of a lane access in the compiler
                    form(None, a=sym('a', 64), rng={'a': [(0, 15)]}, b=lambda en, st, k=k: mkbits(bits(sym('o', 32), 32) + bits(k, 32)))
        elif imm == 'lane': form(mn, a=sym('a', 64), rng={'a': [(0, 15)]})
        elif imm == 'memarg+lane':
            for k in range(5 if c.tier == 'thorough' else 2):
                form('%s align=%d' % (mn, 1 << k), a=sym('a', 64), rng={'a': [(0, 15)]},
                     b=lambda en, st, k=k: mkbits(bits(sym('o', 32), 32) + bits(k, 32)))
        elif imm == 'lanes16':
            form(mn, a=0x0123456789ABCDEF); form(mn + ' descending', a=0xFEDCBA9876543210)
        else: raise AnalysisError('immediate kind ' + imm)
        for i, (key, mkargs) in enumerate(forms):
            if key is None: continue
            if i + 1 < len(forms) and forms[i + 1][0] is None:
                judge(c, 'instruction', key, en, 'drv_ins', mkargs, where, forms[i + 1][1]); continue
            if imm == 'f32':
                def mk32(en, st, mkargs=mkargs):
                    r_ = mkargs(en, st); en.assume_set(st, sym('a', 32), 32, [(0, 0xFF << 23), (1 << 31, 0x1FF << 23)]); return r_
                judge(c, 'instruction', key, en, 'drv_ins', mk32, where)
            else: judge(c, 'instruction', key, en, 'drv_ins', mkargs, where)
    def arr(en, st, vs):
        p = en.new_obj(st, 'vts')
        for i, x in enumerate(vs): en.store(st, P(p.obj, 4 * i), 4, x)
        return p
    names = sorted(VT)
    for mn in ('call_indirect', 'return_call_indirect'):
        v = code_of(en, mn)
        if v is None or v < 0: c.undecided('instruction', mn); continue
        for ps, rs in [((), ()), ((), ('i32',)), (('i32',), ()), (names, ('f64',))] + [((t,), (t,)) for t in names]:
            judge(c, 'instruction', '%s (%s)->(%s)' % (mn, ' '.join(ps), ' '.join(rs)),
                  en, 'drv_ci', lambda en, st, v=v, ps=ps, rs=rs: [v, len(ps), len(rs), arr(en, st, [VT[t] for t in list(ps) + list(rs)])], where)
    for ex in (0, 1):
        for ps, rs, ls in [((), (), ()), (names, ('i64',), ()), ((), (), names)] + [((t,), (t,), (t, 'i32')) for t in names]:
            judge(c, 'function', 'exported=%d (%s)->(%s) locals %s' % (ex, ' '.join(ps), ' '.join(rs), ' '.join(ls)),
                  en, 'drv_func', lambda en, st, ex=ex, ps=ps, rs=rs, ls=ls: [ex, len(ps), len(rs), len(ls), arr(en, st, [VT[t] for t in list(ps) + list(rs) + list(ls)])], where)
    e = pr.mods['w.c'].enumerators
    n, m = sym('n', 32), sym('m', 32)
    def imp(key, **k):
        d = dict(vt=0x7F, mut=0, lt=0, n=0, m=0, align=0, ps=()); d.update(k)
        judge(c, 'import', key, en, 'drv_import', lambda en, st: [d['iek'], d['vt'], d['mut'], d['lt'], d['n'], d['m'], d['align'],
              len(d['ps']), arr(en, st, [VT[t] for t in d['ps']])], where)
    for t in names:
        imp('func result ' + t, iek=e['IEK_FUNC'], vt=VT[t], ps=names)
        for mut in (0, 1):
            imp('global %s mut=%d' % (t, mut), iek=e['IEK_GLOBAL'], vt=VT[t], mut=mut)
    imp('memory min', iek=e['IEK_MEM'], n=n); imp('memory min max', iek=e['IEK_MEM'], n=n, m=m, lt=1)
    for al in (1, 2, 4, 8, 16):
        for mut in (0, 1): imp('data align=%d mut=%d' % (al, mut), iek=e['IEK_DATA'], n=n, mut=mut, align=al)
    consts = {t: code_of(en, t + '.const') for t in names}
    def exp(key, **k):
        d = dict(ex=0, vt=0x7F, mut=0, lt=0, n=0, m=0, ins=0, a=0, b=0); d.update(k)
        def mk_(en, st):
            if d['vt'] == 0x7D and isinstance(d['a'], E): en.assume_set(st, sym('a', 32), 32, [(0, 0xFF << 23), (1 << 31, 0x1FF << 23)])
            if d['vt'] == 0x7C and isinstance(d['a'], E): en.assume_set(st, sym('a', 64), 64, [(0, 0x7FF << 52), (1 << 63, 0xFFF << 52)])
            return [d['iek'], d['ex'], d['vt'], d['mut'], d['lt'], d['n'], d['m'], d['ins'], d['a'], d['b']]
        judge(c, 'export', key, en, 'drv_export', mk_, where)
    a = {'i32': sext(sym('a', 32), 32, 64), 'i64': sym('a', 64), 'f32': zext(sym('a', 32), 32, 64), 'f64': sym('a', 64), 'v128': sym('a', 64)}
    for ex in (0, 1):
        exp('memory min exported=%d' % ex, iek=e['IEK_MEM'], ex=ex, n=n)
        exp('memory min max exported=%d' % ex, iek=e['IEK_MEM'], ex=ex, n=n, m=m, lt=1)
        for t in names:
            for mut in (0, 1):
                exp('global %s mut=%d exported=%d' % (t, mut, ex), iek=e['IEK_GLOBAL'], ex=ex, vt=VT[t], mut=mut, ins=consts[t] or 0,
                    a=a[t], b=sym('b', 64) if t == 'v128' else 0)
    def data(key, bs, ex=0, mut=0, al=4, refs=0, toff=0, soff=0):
        def mk_(en, st):
            p = en.new_obj(st, 'bytes')
            for i, x in enumerate(bs): en.store(st, P(p.obj, i), 1, x)
            for x in (toff, soff):
                if isinstance(x, E): en.assume_set(st, x, 64, M32)
            return [ex, mut, al, len(bs), p, refs, toff, soff]
        judge(c, 'data', key, en, 'drv_data', mk_, where)
    for b in range(256):
        data('byte %d' % b, [b, 0x61, b, b, 0x7A, 1], al=1)
    for ex in (0, 1):
        for mut in (0, 1):
            for al in (1, 2, 4, 8, 16): data('exported=%d mut=%d align=%d' % (ex, mut, al), [1, 0, 255, 34], ex=ex, mut=mut, al=al)
    for k in (1, 3, 255, 256, 1000): data('%d zero bytes' % k, [0] * k)
    for k in (80, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 600): data('%d bytes on one line' % k, [65 + i % 26 for i in range(k)])
    data('empty', [])
    data('pointer slots', [0] * 15 + [1], al=4, refs=2, toff=sym('t', 64), soff=sym('s', 64))
    initial(en)
    c.pmap(TASKS, task)
    for fn in sorted(en.fnseen): c.seen('functions', '%s:%s' % fn)
    c.assume('a decimal numeral printed for a number and read by strtol/strtoull gives that number back; hexadecimal floating text is the subject of a property of its own')
    c.need('instruction', 300); c.need('data', 200)
