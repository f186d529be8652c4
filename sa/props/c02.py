"""For every instruction of the specification the bytes after the opcode are decoded from the abstract output of the
whole binary writer, with the immediates left unknown (64 or 128 unknown bits, restricted only to the operand's legal
range), and compared bit by bit, on every path, with the immediate layout of the specification: LEB128 operands must
decode to the operand for all of its values and use no more bytes than its width allows, fixed-width operands must be
little-endian, reserved bytes must be zero and nothing may follow.  The operand order of two-operand instructions is
tied to the text form: the same abstract instruction is pushed through the text writer."""
from wasmdrv import *
LEVEL = 'other'


def run(c):
    pr, en = setup()
    wpos = pr.func('write_wasm_module')
    if wpos is None: raise AnalysisError('write_wasm_module not found')
    there = wpos.mod.fwhere(wpos)
    for mn, op, imm in spec.all_instructions():
        if imm in ('ls', 't*'): continue
        v = code_of(en, mn)
        if v is None or v < 0: c.undecided('immediates', mn, 'mnemonic unknown'); continue
        for case in cases(imm, c.tier):
            if not one(c, en, mn, op, imm, v, case, there): break
    branch_table(c, en, there)
    c.need('immediates', 300)


def cases(imm, tier):
    if imm == 'memarg' or imm == 'memarg+lane': return list(range(5))
    return [0]


def one(c, en, mn, op, imm, v, case, there):
    st = State(); f = stream(st, 'out')
    a, b = sym('a', 64), sym('b', 64)
    key = mn if case == 0 else '%s,align=%d' % (mn, 1 << case)
    U32 = [(0, M(32))]
    if imm in ('x', 'l', 'ci', 'x,y', 'x+m', 'memarg'): en.assume_set(st, a, 64, U32)
    if imm in ('ci', 'x,y'): en.assume_set(st, b, 64, U32)
    if imm == 'memarg': b = case
    if imm == 'memarg+lane':
        off = sym('o', 32); b = mkbits(bits(off, 32) + bits(case, 32))
        en.assume_set(st, a, 64, [(0, 15)])
    if imm == 'lane': en.assume_set(st, a, 64, [(0, 31)])
    if imm == 'bt': en.assume_set(st, a, 64, [(0x40, 0x7F)])
    if imm == 'ht': en.assume_set(st, a, 64, [(0x6F, 0x70)])
    if imm == 'i32':
        x = sym('a', 32); a = sext(x, 32, 64)
    rs = en.start('drv_one', [v, a, b, f], st)
    dec = 0; bad = None
    for s in rs:
        if s.kind == 'cut': bad = bad or ('cut', s.note); continue
        if s.kind != 'ret': bad = ('fail', 'the writer stops: %s' % (s.value,)); break
        try:
            r = body_of_single(en, s, out_get(s, f))
            if bytes(r.const() for _ in op) != op: raise DecodeError('wrong opcode')
            check(en, s, r, imm, a, b, case)
            if r.more(): raise DecodeError('%d bytes follow the immediates: %r' % (len(r.b) - r.i, r.b[r.i:]))
            dec += 1
        except DecodeError as e:
            bad = ('fail', str(e)); break
    if bad and bad[0] == 'fail':
        c.ob('immediates', mn, False, 'immediates of %s are not encoded as the specification says: %s' % (mn, bad[1]),
             there, imm or 'none', bad[1])
    elif bad or not dec: c.undecided('immediates', key, bad)
    else: c.ob('immediates', key, True)
    c.seen('paths', '%s:%d' % (key, dec))
    return not (bad and bad[0] == 'fail')


def eq(en, s, got, want, what):
    if not same(en, s, got, want): raise DecodeError('%s: found %r, not %r' % (what, en.simp(s, got), en.simp(s, want)))


def check(en, s, r, imm, a, b, case):
    if imm == '': return
    if imm in ('x', 'l', 'bt', 'ht'): eq(en, s, r.u(32 if imm in ('x', 'l') else 7), a, 'index')
    elif imm in ('ci', 'x,y'):
        eq(en, s, r.u(32), a, 'first index'); eq(en, s, r.u(32), b, 'second index')
    elif imm == 'x+m':
        eq(en, s, r.u(32), a, 'index'); eq(en, s, r.const(), 0, 'reserved byte')
    elif imm == 'm': eq(en, s, r.const(), 0, 'reserved byte')
    elif imm == 'mm': eq(en, s, r.const(), 0, 'reserved byte'); eq(en, s, r.const(), 0, 'second reserved byte')
    elif imm == 'i32':
        if not same_signed(en, s, r.sbits(32), sym('a', 32), 32) : raise DecodeError('signed operand does not decode to its value')
    elif imm == 'i64':
        if not same_signed(en, s, r.sbits(64), a, 64): raise DecodeError('signed operand does not decode to its value')
    elif imm == 'f32': eq(en, s, r.fixed(4), trunc(a, 64, 32), 'float bits')
    elif imm == 'f64': eq(en, s, r.fixed(8), a, 'double bits')
    elif imm == 'v128':
        eq(en, s, r.fixed(8), a, 'low half'); eq(en, s, r.fixed(8), b, 'high half')
    elif imm == 'lane': eq(en, s, r.byte(), trunc(a, 64, 8), 'lane')
    elif imm == 'lanes16':
        for i in range(16):
            v = bits(r.byte(), 8)
            if any(x != 0 for x in v[5:]): raise DecodeError('lane %d may exceed 31' % i)
    elif imm == 'memarg':
        eq(en, s, r.u(32), case, 'alignment exponent'); eq(en, s, r.u(32), a, 'offset')
    elif imm == 'memarg+lane':
        eq(en, s, r.u(32), case, 'alignment exponent'); eq(en, s, r.u(32), sym('o', 32), 'offset')
        eq(en, s, r.byte(), trunc(a, 64, 8), 'lane')
    else: raise AnalysisError('immediate kind ' + imm)


def branch_table(c, en, there):
    v = code_of(en, 'br_table'); br = code_of(en, 'br')
    if v is None or br is None: c.undecided('br_table', 'br_table'); return
    for n in (0, 1, 2, 5, 200):
        st = State(); f = stream(st, 'out')
        for k in range(min(n + 1, 8)): en.assume_set(st, sym('t%d' % k, 64), 64, [(0, M(32) if n < 3 else 127)])
        arr = en.new_obj(st, 'targets')
        ts = [sym('t%d' % k, 64) if k < 8 else k * 83 for k in range(n + 1)]
        for k, t in enumerate(ts): en.store(st, P(arr.obj, 8 * k), 8, t)
        rs = en.start('drv_brtable', [v, br, n, arr, f], st)
        for s in rs:
            if s.kind == 'cut': c.undecided('br_table', n, s.note); continue
            try:
                if s.kind != 'ret': raise DecodeError('the writer stops: %s' % (s.value,))
                r = body_of_single(en, s, out_get(s, f))
                if r.const() != 0x0E: raise DecodeError('wrong opcode')
                eq(en, s, r.u(32), n, 'count')
                for k, t in enumerate(ts): eq(en, s, r.u(32), t, 'target %d' % k)
                if r.const() != 0x0B or r.more(): raise DecodeError('instructions after the table are lost or damaged')
                c.ob('br_table', n, True)
            except DecodeError as e:
                c.ob('br_table', n, False, 'br_table of %d targets: %s' % (n, e), there)
