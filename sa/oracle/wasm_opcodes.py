"""WebAssembly opcode tables (core 2.0 binary format section 5.4, plus tail calls).  Written from the specification,
not from the code under analysis: (prefix, opcode) -> (mnemonic, immediate kinds).

immediate kinds: '' none, bt block type, l label, ls label vector + label, x index, ci type index + table index,
t* vector of value types, ht heap/ref type, m memory reserved byte, mm two of them, memarg, i32 i64 f32 f64 v128,
lane, lanes16, memarg+lane, x+m data index + memory byte, x,y two indices."""

CORE = {
 0x00: ('unreachable', ''), 0x01: ('nop', ''), 0x02: ('block', 'bt'), 0x03: ('loop', 'bt'), 0x04: ('if', 'bt'),
 0x05: ('else', ''), 0x0B: ('end', ''), 0x0C: ('br', 'l'), 0x0D: ('br_if', 'l'), 0x0E: ('br_table', 'ls'),
 0x0F: ('return', ''), 0x10: ('call', 'x'), 0x11: ('call_indirect', 'ci'), 0x12: ('return_call', 'x'),
 0x13: ('return_call_indirect', 'ci'), 0x1A: ('drop', ''), 0x1B: ('select', ''), 0x1C: ('select', 't*'),
 0x20: ('local.get', 'x'), 0x21: ('local.set', 'x'), 0x22: ('local.tee', 'x'), 0x23: ('global.get', 'x'),
 0x24: ('global.set', 'x'), 0x25: ('table.get', 'x'), 0x26: ('table.set', 'x'),
 0x3F: ('memory.size', 'm'), 0x40: ('memory.grow', 'm'),
 0x41: ('i32.const', 'i32'), 0x42: ('i64.const', 'i64'), 0x43: ('f32.const', 'f32'), 0x44: ('f64.const', 'f64'),
 0xD0: ('ref.null', 'ht'), 0xD1: ('ref.is_null', ''), 0xD2: ('ref.func', 'x'),
}
for _i, _n in enumerate('i32.load i64.load f32.load f64.load i32.load8_s i32.load8_u i32.load16_s i32.load16_u '
                        'i64.load8_s i64.load8_u i64.load16_s i64.load16_u i64.load32_s i64.load32_u '
                        'i32.store i64.store f32.store f64.store i32.store8 i32.store16 i64.store8 i64.store16 '
                        'i64.store32'.split()):
    CORE[0x28 + _i] = (_n, 'memarg')
_irel = 'eqz eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split()
_frel = 'eq ne lt gt le ge'.split()
_iun = 'clz ctz popcnt add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'.split()
_fun = 'abs neg ceil floor trunc nearest sqrt add sub mul div min max copysign'.split()
_c = 0x45
for _t, _ops in (('i32', _irel), ('i64', _irel), ('f32', _frel), ('f64', _frel),
                 ('i32', _iun), ('i64', _iun), ('f32', _fun), ('f64', _fun)):
    for _o in _ops:
        CORE[_c] = (_t + '.' + _o, ''); _c += 1
assert _c == 0xA7
for _o in ('i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s '
           'i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u f32.convert_i32_s '
           'f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u '
           'f64.convert_i64_s f64.convert_i64_u f64.promote_f32 i32.reinterpret_f32 i64.reinterpret_f64 '
           'f32.reinterpret_i32 f64.reinterpret_i64 i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s '
           'i64.extend32_s').split():
    CORE[_c] = (_o, ''); _c += 1
assert _c == 0xC5

FC = {}
for _i, _n in enumerate('i32.trunc_sat_f32_s i32.trunc_sat_f32_u i32.trunc_sat_f64_s i32.trunc_sat_f64_u '
                        'i64.trunc_sat_f32_s i64.trunc_sat_f32_u i64.trunc_sat_f64_s i64.trunc_sat_f64_u'.split()):
    FC[_i] = (_n, '')
FC.update({8: ('memory.init', 'x+m'), 9: ('data.drop', 'x'), 10: ('memory.copy', 'mm'), 11: ('memory.fill', 'm'),
           12: ('table.init', 'x,y'), 13: ('elem.drop', 'x'), 14: ('table.copy', 'x,y'), 15: ('table.grow', 'x'),
           16: ('table.size', 'x'), 17: ('table.fill', 'x')})

FD = {}
for _i, _n in enumerate('v128.load v128.load8x8_s v128.load8x8_u v128.load16x4_s v128.load16x4_u v128.load32x2_s '
                        'v128.load32x2_u v128.load8_splat v128.load16_splat v128.load32_splat v128.load64_splat '
                        'v128.store'.split()):
    FD[_i] = (_n, 'memarg')
FD[12] = ('v128.const', 'v128'); FD[13] = ('i8x16.shuffle', 'lanes16')


def _seq(start, names, imm=''):
    for i, n in enumerate(names.split()):
        if n != '-': FD[start + i] = (n, imm)


_seq(14, 'i8x16.swizzle i8x16.splat i16x8.splat i32x4.splat i64x2.splat f32x4.splat f64x2.splat')
_seq(21, 'i8x16.extract_lane_s i8x16.extract_lane_u i8x16.replace_lane i16x8.extract_lane_s i16x8.extract_lane_u '
         'i16x8.replace_lane i32x4.extract_lane i32x4.replace_lane i64x2.extract_lane i64x2.replace_lane '
         'f32x4.extract_lane f32x4.replace_lane f64x2.extract_lane f64x2.replace_lane', 'lane')
_rel = 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'
_c = 35
for _t in ('i8x16', 'i16x8', 'i32x4'):
    for _o in _rel.split(): FD[_c] = (_t + '.' + _o, ''); _c += 1
for _t in ('f32x4', 'f64x2'):
    for _o in 'eq ne lt gt le ge'.split(): FD[_c] = (_t + '.' + _o, ''); _c += 1
assert _c == 77
_seq(77, 'v128.not v128.and v128.andnot v128.or v128.xor v128.bitselect v128.any_true')
_seq(84, 'v128.load8_lane v128.load16_lane v128.load32_lane v128.load64_lane v128.store8_lane v128.store16_lane '
         'v128.store32_lane v128.store64_lane', 'memarg+lane')
_seq(92, 'v128.load32_zero v128.load64_zero', 'memarg')
_seq(94, 'f32x4.demote_f64x2_zero f64x2.promote_low_f32x4')
_seq(96, 'i8x16.abs i8x16.neg i8x16.popcnt i8x16.all_true i8x16.bitmask i8x16.narrow_i16x8_s i8x16.narrow_i16x8_u '
         'f32x4.ceil f32x4.floor f32x4.trunc f32x4.nearest i8x16.shl i8x16.shr_s i8x16.shr_u i8x16.add i8x16.add_sat_s '
         'i8x16.add_sat_u i8x16.sub i8x16.sub_sat_s i8x16.sub_sat_u f64x2.ceil f64x2.floor i8x16.min_s i8x16.min_u '
         'i8x16.max_s i8x16.max_u f64x2.trunc i8x16.avgr_u i16x8.extadd_pairwise_i8x16_s i16x8.extadd_pairwise_i8x16_u '
         'i32x4.extadd_pairwise_i16x8_s i32x4.extadd_pairwise_i16x8_u')
_seq(128, 'i16x8.abs i16x8.neg i16x8.q15mulr_sat_s i16x8.all_true i16x8.bitmask i16x8.narrow_i32x4_s '
          'i16x8.narrow_i32x4_u i16x8.extend_low_i8x16_s i16x8.extend_high_i8x16_s i16x8.extend_low_i8x16_u '
          'i16x8.extend_high_i8x16_u i16x8.shl i16x8.shr_s i16x8.shr_u i16x8.add i16x8.add_sat_s i16x8.add_sat_u '
          'i16x8.sub i16x8.sub_sat_s i16x8.sub_sat_u f64x2.nearest i16x8.mul i16x8.min_s i16x8.min_u i16x8.max_s '
          'i16x8.max_u - i16x8.avgr_u i16x8.extmul_low_i8x16_s i16x8.extmul_high_i8x16_s i16x8.extmul_low_i8x16_u '
          'i16x8.extmul_high_i8x16_u')
_seq(160, 'i32x4.abs i32x4.neg - i32x4.all_true i32x4.bitmask - - i32x4.extend_low_i16x8_s i32x4.extend_high_i16x8_s '
          'i32x4.extend_low_i16x8_u i32x4.extend_high_i16x8_u i32x4.shl i32x4.shr_s i32x4.shr_u i32x4.add - - i32x4.sub '
          '- - - i32x4.mul i32x4.min_s i32x4.min_u i32x4.max_s i32x4.max_u i32x4.dot_i16x8_s - i32x4.extmul_low_i16x8_s '
          'i32x4.extmul_high_i16x8_s i32x4.extmul_low_i16x8_u i32x4.extmul_high_i16x8_u')
_seq(192, 'i64x2.abs i64x2.neg - i64x2.all_true i64x2.bitmask - - i64x2.extend_low_i32x4_s i64x2.extend_high_i32x4_s '
          'i64x2.extend_low_i32x4_u i64x2.extend_high_i32x4_u i64x2.shl i64x2.shr_s i64x2.shr_u i64x2.add - - i64x2.sub '
          '- - - i64x2.mul i64x2.eq i64x2.ne i64x2.lt_s i64x2.gt_s i64x2.le_s i64x2.ge_s i64x2.extmul_low_i32x4_s '
          'i64x2.extmul_high_i32x4_s i64x2.extmul_low_i32x4_u i64x2.extmul_high_i32x4_u')
_seq(224, 'f32x4.abs f32x4.neg - f32x4.sqrt f32x4.add f32x4.sub f32x4.mul f32x4.div f32x4.min f32x4.max f32x4.pmin '
          'f32x4.pmax f64x2.abs f64x2.neg - f64x2.sqrt f64x2.add f64x2.sub f64x2.mul f64x2.div f64x2.min f64x2.max '
          'f64x2.pmin f64x2.pmax i32x4.trunc_sat_f32x4_s i32x4.trunc_sat_f32x4_u f32x4.convert_i32x4_s '
          'f32x4.convert_i32x4_u i32x4.trunc_sat_f64x2_s_zero i32x4.trunc_sat_f64x2_u_zero f64x2.convert_low_i32x4_s '
          'f64x2.convert_low_i32x4_u')
assert len(FD) == 236, len(FD)


def leb(n):
    out = []
    while True:
        b = n & 0x7F; n >>= 7
        if n: out.append(b | 0x80)
        else:
            out.append(b); return bytes(out)


def all_instructions():
    """(mnemonic, binary opcode bytes, immediates)"""
    for k, (n, i) in CORE.items(): yield n, bytes([k]), i
    for k, (n, i) in FC.items(): yield n, b'\xFC' + leb(k), i
    for k, (n, i) in FD.items(): yield n, b'\xFD' + leb(k), i


VALTYPES = {'i32': 0x7F, 'i64': 0x7E, 'f32': 0x7D, 'f64': 0x7C, 'v128': 0x7B, 'funcref': 0x70, 'externref': 0x6F}
