"""For every instruction of the WebAssembly specification (core plus 128-bit SIMD plus tail calls): the mnemonic is
looked up through the compiler's own name-to-instruction function, the instruction is pushed through the whole binary
writer (abstract interpretation of the LLVM IR, immediates unknown), and the opcode bytes that come out are compared
with the specification's; the instruction-to-name function must give the mnemonic back, and every instruction constant
of the compiler must carry a mnemonic of the specification."""
from wasmdrv import *
LEVEL = 'other'


def run(c):
    pr, en = setup()
    enum = {k: v for k, v in pr.mods['w.c'].enumerators.items() if k.startswith('IN_')}
    namepos = pr.func('instr_name'); wpos = pr.func('write_wasm_module')
    if namepos is None or wpos is None or pr.func('name_instr') is None: raise AnalysisError('instruction name functions not found')
    here = namepos.mod.fwhere(namepos); there = wpos.mod.fwhere(wpos); lpos = pr.func('name_instr'); lpos = lpos.mod.fwhere(lpos)
    byname = {}
    for mn, op, imm in spec.all_instructions():
        if op == b'\x1C': mn = 'select_t'   # the second encoding of select; the compiler's own spelling
        v = code_of(en, mn)
        if v is None: c.undecided('lookup', mn, 'lookup not resolved'); continue
        c.ob('lookup', mn, v >= 0, 'the mnemonic %s is not known to the compiler' % mn, lpos, 'an instruction', v)
        if v < 0: continue
        byname[mn] = v
        back = name_of(en, v)
        c.ob('name', mn, back == mn, 'instruction looked up as %s is printed as %s' % (mn, back), here, mn, back)
        st = State(); f = stream(st, 'out')
        a, b = sym('a', 64), sym('b', 64)
        if imm == 'ls': a = 0
        if imm.startswith('memarg'): b = 0
        if imm not in ('f32', 'f64', 'v128', 'lanes16'): en.assume_set(st, a, 64, [(0, 63)])
        if imm in ('ci', 'x,y'): en.assume_set(st, b, 64, [(0, 63)])
        rs = en.start('drv_one', [v, a, b, f], st)
        dec = 0
        for s in rs:
            if s.kind == 'cut': continue
            if s.kind == 'exit':
                if imm == 'ls': continue   # branch vectors need the following entries
                c.ob('opcode', mn, False, 'the writer stops (%s) on %s' % (s.value, mn), s.site or there, op.hex(), 'stop'); dec += 1
                break
            try:
                b = body_of_single(en, s, out_get(s, f))
                got = bytes(b.const() for _ in op)
                ok = got == op; g = got.hex()
            except DecodeError as e: ok = False; g = str(e)
            dec += 1
            if not ok:
                c.ob('opcode', mn, False, '%s is emitted with the wrong opcode' % mn, there, op.hex(), g); break
        else:
            if dec: c.ob('opcode', mn, True)
            elif imm != 'ls': c.undecided('opcode', mn, 'no complete path')
        c.seen('mnemonics', mn)
    names = {s for s, _, _ in spec.all_instructions()} | {'select_t'}   # select with a type annotation: no mnemonic of its own
    for k, v in sorted(enum.items()):
        if v < 0 or v >= 1 << 31: continue
        n = name_of(en, v)
        c.ob('constant', k, n in names, 'constant %s = %#x is printed as %s, which is no instruction' % (k, v, n), here, 'a mnemonic', n)
    for fn in sorted(en.fnseen): c.seen('functions', '%s:%s' % fn)
    # names that are no instruction must not be taken for one
    for bad in ('', 'i32', 'i32.', 'i32.ad', 'i32.addd', 'foo', 'zzzz', 'nopp', 'v128.load1_lane', 'i8x16.mul', 'i64x2.all'):
        v = code_of(en, bad)
        if v is None: c.undecided('reject', bad); continue
        c.ob('reject', repr(bad), v < 0, 'a string that is no mnemonic is taken for an instruction', lpos, 'no instruction', hex(v))
    c.need('lookup', 200); c.need('opcode', 200)
