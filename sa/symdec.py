"""Decoder for emitted bytes that may be terms: reads LEB128 and fixed-width fields by bit provenance."""
from absint import *
import absint


class DecodeError(Exception):
    pass


class R:
    def __init__(self, eng, st, items):
        self.e = eng; self.s = st; self.b = items; self.i = 0

    def more(self): return self.i < len(self.b)

    def byte(self):
        if self.i >= len(self.b): raise DecodeError('bytes end early')
        v = self.e.simp(self.s, self.b[self.i]); self.i += 1
        return v

    def const(self):
        v = self.byte()
        if not isinstance(v, int): raise DecodeError('byte %d is not constant: %r' % (self.i - 1, v))
        return v

    def leb(self):
        """returns (bit tuple, number of bytes)"""
        bs = (); n = 0
        while True:
            v = bits(self.byte(), 8); n += 1
            if v[7] not in (0, 1): raise DecodeError('continuation bit unknown')
            bs += v[:7]
            if v[7] == 0: return bs, n
            if n > 10: raise DecodeError('LEB128 too long')

    def u(self, w=64):
        """unsigned LEB128 as a value of w bits"""
        bs, n = self.leb()
        if any(b != 0 for b in bs[w:]): raise DecodeError('unsigned LEB128 exceeds %d bits' % w)
        if n > (w + 6) // 7: raise DecodeError('LEB128 longer than ceil(%d/7)' % w)
        bs = bs[:w] + (0,) * (w - len(bs))
        return mkbits(bs)

    def uconst(self):
        v = self.u()
        if not isinstance(v, int): raise DecodeError('expected a constant, found %r' % (v,))
        return v

    def sbits(self, w):
        """signed LEB128: (low bits, number of significant bits)"""
        bs, n = self.leb()
        if n > (w + 6) // 7: raise DecodeError('signed LEB128 longer than ceil(%d/7)' % w)
        return bs[:w], min(len(bs), w), bs

    def fixed(self, n):
        bs = ()
        for _ in range(n): bs += bits(self.byte(), 8)
        return mkbits(bs)

    def take(self, n):
        if self.i + n > len(self.b): raise DecodeError('length %d runs past the end' % n)
        r = R(self.e, self.s, self.b[self.i:self.i + n]); self.i += n
        return r

    def name(self):
        n = self.uconst()
        out = []
        for _ in range(n): out.append(self.byte())
        if all(isinstance(x, int) for x in out): return bytes(out)
        return tuple(out)


def resolve(eng, st, v, w):
    """v as a tuple of w bits with everything the path knows filled in"""
    if isinstance(v, int): return bits(v, w)
    out = []
    bs = bits(eng.simp(st, v), (v.w or 64) if isinstance(v, E) else 64)
    for b in bs:
        if isinstance(b, tuple):
            kb = st.kn.get(b[0])
            if kb is not None and kb[0] >> b[1] & 1: b = kb[1] >> b[1] & 1
            else:
                r = st.rng.get(b[0])
                if r is not None:
                    if len(r) == 1 and r[0][0] == r[0][1]: b = r[0][0] >> b[1] & 1
                    elif r[-1][1] >> b[1] == 0: b = 0
        out.append(b)
    out = out[:w] + [0] * (w - len(out))
    return tuple(out)


def same(eng, st, v, want):
    """v equals want on this path (both zero-extended)"""
    w = max((x.w or 64) if isinstance(x, E) else 64 for x in (v, want))
    return resolve(eng, st, v, w) == resolve(eng, st, want, w)


def same_signed(eng, st, dec, want, w):
    """dec = R.sbits() of a signed LEB128 equals the w-bit term want on this path"""
    lo, n, full = dec
    full = resolve(eng, st, mkbits(tuple(full)), len(full))
    val = full[:w] if len(full) >= w else full + (full[-1],) * (w - len(full))
    if any(b != val[-1] for b in full[w:]): return False
    return tuple(val) == resolve(eng, st, want, w)
