"""Shared by the checks on the WebAssembly writer: runs the writer abstractly and takes its output apart."""
from model import *
from symdec import *
import symdec
from oracle import wasm_opcodes as spec


def setup(extra=()):
    pr = program(('libc.c', 'w.c') + tuple(extra))
    return pr, engine(pr, hooks=HOOKS, maxforks=14, maxpaths=3000)


def push_mark(eng, st, ins, spec_, val, pcb):
    """append one marker byte for a formatted unknown to a character buffer, through the repository's own cbput"""
    f = eng.prog.func('cbput')
    if f is None: return NOTHANDLED
    p = eng.new_obj(st, 'mark'); eng.store(st, p, 1, marker(spec_, val))
    eng.push(st, f, [p, 1, pcb], None, None, ins)
    return None


def numhook(spec_):
    def h(eng, st, ins, args):
        if isinstance(args[0], int): return NOTHANDLED
        return push_mark(eng, st, ins, spec_, args[0], args[1])
    return h


HOOKS = {'cbput' + k: numhook(s) for k, s in (('d', 'd32'), ('ld', 'd64'), ('u', 'u32'), ('x', 'x32'), ('lu', 'u64'),
                                               ('llu', 'u64'), ('z', 'u64'), ('ll', 'd64'))}


def hexhook(spec_, w):
    def h(eng, st, ins, args):
        if isinstance(args[0], int): return NOTHANDLED
        p = eng.to_ptr(args[1])
        store_items(eng, st, p, [marker(spec_, args[0])])
        return p
    return h


HOOKS['udtohex'] = hexhook('hexd', 64); HOOKS['uftohex'] = hexhook('hexf', 32)


def sections(eng, st, items):
    """split an emitted module into [(id, reader, size)]; checks magic and version"""
    r = R(eng, st, items)
    if [r.const() for _ in range(8)] != [0, 0x61, 0x73, 0x6D, 1, 0, 0, 0]: raise DecodeError('bad magic or version')
    out = []
    while r.more():
        i = r.const(); n = r.uconst()
        out.append((i, r.take(n)))
    return out


def body_of_single(eng, st, items):
    """reader over the instruction bytes of the only function of the module"""
    for i, r in sections(eng, st, items):
        if i == 10:
            if r.uconst() != 1: raise DecodeError('code count is not 1')
            n = r.uconst(); b = r.take(n)
            if r.more(): raise DecodeError('code section has trailing bytes')
            if b.uconst() != 0: raise DecodeError('unexpected locals')
            return b
    raise DecodeError('no code section')


def name_of(eng, code):
    """mnemonic of an opcode constant, or None"""
    out = set()
    for s in eng.start('instr_name', [code & 0xFFFFFFFF]):
        if s.kind != 'ret': out.add(None)
        else:
            n = eng.cstr(s, s.value) if isinstance(s.value, P) else None
            out.add(n.decode('latin-1') if n is not None else None)
    return out.pop() if len(out) == 1 else None


_state = {}


def code_of(eng, name):
    """opcode constant of a mnemonic through the repository's own lookup; state is kept as the table is built once"""
    st = _state.get(id(eng))
    st = st.fork() if st is not None else State()
    st.kind = None; st.value = None; st.steps = 0
    p = eng.new_str(st, name)
    rs = eng.start('name_instr', [p], st)
    if len(rs) != 1 or rs[0].kind != 'ret': return None
    r = rs[0]
    keep = r.fork(); keep.frames = []
    _state[id(eng)] = keep
    v = r.value
    return sx(v, 32) if isinstance(v, int) else None
