"""The compiler proper under analysis: an abstract source file goes in, the object text of the module comes out.

compile_module_to_wat and everything below it (lexer, parser, normalisation, code generation) is analysed with the
source file as its input; values of the program's variables are unknowns of the *compiled* program and never appear on
this side.  The code it emits is then interpreted abstractly by wasmev.py, where parameters and memory are unknowns."""
from model import *
from absint import NOTHANDLED

TM = {'time': const_hook(0), 'setlocale': const_hook(0)}


def _tm(eng, st, ins, args): return eng.new_obj(st, 'tm', 'zero', 64)


def _strftime(eng, st, ins, args):
    store_items(eng, st, args[0], b'Jan 01 2020'); return 11


TM.update({'gmtime': _tm, 'localtime': _tm, 'strftime': _strftime})
_eng = {}
INC = 'lib/include/'; OPT = 3
_swap = {}


def h_memswap(eng, st, ins, args):
    """summary of memswap, used for a size only after memswap itself was analysed on unknown contents of that size"""
    n = args[2]
    if not isinstance(n, int) or not 0 < n <= 512: return NOTHANDLED
    if n not in _swap:
        _swap[n] = False
        s = State()
        a = eng.new_obj(s, 'swa', 'undef', n); b = eng.new_obj(s, 'swb', 'undef', n)
        for i in range(n): eng.store(s, P(a.obj, i), 1, sym('a%d' % i, 8)); eng.store(s, P(b.obj, i), 1, sym('b%d' % i, 8))
        rs = eng.__class__(eng.prog).start('memswap', [a, b, n], s)
        _swap[n] = len(rs) == 1 and rs[0].kind == 'ret' and all(
            eng.load(rs[0], P(a.obj, i), 1) is sym('b%d' % i, 8) and eng.load(rs[0], P(b.obj, i), 1) is sym('a%d' % i, 8) for i in range(n))
    if not _swap[n]: return NOTHANDLED
    if args[0] == args[1]: return 0
    t = eng.new_obj(st, 'swt', 'undef', n)
    eng.memcpy(st, t, args[0], n); eng.memcpy(st, args[0], args[1], n); eng.memcpy(st, args[1], t, n)
    return 0


TM['memswap'] = h_memswap
_utf = {}


def h_unutf8(eng, st, ins, args):
    """summary of unutf8 for an ASCII byte, used only after unutf8 itself was analysed on that byte"""
    if not isinstance(args[0], P): return NOTHANDLED
    p = eng.load(st, args[0], 8)
    if not isinstance(p, P): return NOTHANDLED
    c = eng.load(st, p, 1)
    if not isinstance(c, int) or c >= 128: return NOTHANDLED
    if c not in _utf:
        s = State()
        b = eng.new_obj(s, 'ub', 'undef', 8); pp = eng.new_obj(s, 'up', 'undef', 8)
        eng.store(s, b, 1, c); eng.store(s, pp, 8, b)
        rs = eng.__class__(eng.prog).start('unutf8', [pp], s)
        _utf[c] = len(rs) == 1 and rs[0].kind == 'ret' and rs[0].value == c and eng.load(rs[0], pp, 8) == P(b.obj, b.off + 1)
    if not _utf[c]: return NOTHANDLED
    eng.store(st, args[0], 8, P(p.obj, p.off + 1))
    return c


TM['unutf8'] = h_unutf8


def engine_for(extra=(), hooks=None, **kw):
    key = tuple(extra) + (OPT,)
    if key not in _eng or hooks:
        pr = program(('libc.c', 'c.c') + tuple(extra))
        h = dict(TM)
        if hooks: h.update(hooks)
        kw.setdefault('maxdepth', 600); kw.setdefault('maxforks', 14); kw.setdefault('maxpaths', 500); kw.setdefault('maxsteps', 10 ** 8)
        en = engine(pr, hooks=h, **kw)
        s0 = State()
        rs = en.start('drv_init', [en.new_str(s0, INC), OPT], s0)
        if len(rs) != 1 or rs[0].kind != 'ret': raise AnalysisError('init_wcpl was not analysed to its end')
        st = rs[0]; st.kind = None; st.steps = 0
        if hooks: return en, st
        _eng[key] = (en, st)
    return _eng[key]


def level(n):
    """compile with -O n from here on"""
    global OPT
    OPT = n


class Rejected(Exception):
    pass


class Cut(Exception):
    pass


def text(items): return bytes(x if isinstance(x, int) else 63 for x in items).decode('latin-1')


def stderr_of(st):
    o = ''
    for k in st.data:
        if k[0] == 'out' and 'stderr' in str(k[1]): o += text(out_get(st, P(k[1], 0) if isinstance(k[1], tuple) else k[1])) + ' '
    return o


def compile_text(src, files=(), name='x.c'):
    """object text the compiler emits for a source; Rejected with its message if it stops"""
    en, st0 = engine_for()
    st = st0.fork()
    set_input(st, name, list(src.encode('latin-1')))
    for n, t in dict(files).items(): set_input(st, n, list(t.encode('latin-1')))
    f = stream(st, 'out')
    rs = en.start('drv_compile', [en.new_str(st, name), f], st)
    if len(rs) != 1: raise Cut('%d paths' % len(rs))
    s = rs[0]
    if s.kind == 'ret': 
        it = out_get(s, f)
        if not all(isinstance(x, int) for x in it): raise Cut('output not constant')
        return text(it)
    if s.kind == 'exit' or s.kind == 'unreachable':
        e = Rejected('%s: %s' % (s.value, stderr_of(s))); e.kind = s.kind; e.value = s.value; e.diag = stderr_of(s)
        raise e
    raise Cut(s.note)


def strip(s):
    """source without comments, blank lines and carriage returns: what the lexer does with them is C10's business"""
    import re
    def f(m):
        t = m.group(0)
        return t if t[0] in '"\'' else ' '
    s = re.sub(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|/\*.*?\*/|//[^\n]*', f, s.replace('\r\n', '\n'), flags=re.S)
    return re.sub(r'[ \t]+\n', '\n', re.sub(r'\n\s*\n', '\n', s + '\n'))


def headers():
    """the library headers of the current tree, where the compiler looks for them"""
    import glob, os
    from ir import REPO
    return {INC + os.path.basename(f): strip(open(f, encoding='latin-1', newline='').read()) for f in glob.glob(os.path.join(REPO, 'lib', 'include', '*.h'))}


def functions(txt):
    """{name: Func} of the functions defined in an object text, in order"""
    import re
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[()]|[^\s()]+', txt)
    out = {}; i = 0
    while i < len(toks):
        if toks[i] == '(' and toks[i + 1] == 'func' and toks[i - 1] != '"':
            # a definition starts at depth 1: "(func $x:f (export ..) (param ..) ..."
            depth = 0
            nm = toks[i + 2]; i += 3
            f = Func(nm); body = []
            while toks[i] != ')':
                if toks[i] == '(' and toks[i + 1] in ('export', 'param', 'result', 'local', 'type'):
                    k = toks[i + 1]; i += 2; a = []
                    while toks[i] != ')': a.append(toks[i]); i += 1
                    i += 1
                    if body: # (result t) of if/block/call_indirect
                        body += ['(', k] + a + [')']
                    elif k == 'param': f.params.append((a[0], a[1]) if a[0][0] == '$' else (None, a[0]))
                    elif k == 'result': f.results += a
                    elif k == 'local': f.locals.append((a[0], a[1]) if a[0][0] == '$' else (None, a[0]))
                    elif k == 'export': f.export = a[0]
                elif toks[i] == '(':
                    d = 0
                    while True:
                        if toks[i] == '(': d += 1
                        if toks[i] == ')': d -= 1
                        body.append(toks[i]); i += 1
                        if d == 0: break
                else: body.append(toks[i]); i += 1
            f.body = body
            # imports have their func inside (import ...): no body and preceded by two strings
            out[nm] = f
        i += 1
    return out


class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.results = []; self.locals = []; self.body = []; self.export = None
