"""Textual LLVM IR: compile repository units and parse them into a small program model.

Nothing is executed: the unit is compiled to IR by clang-18 (-O0, debug info), promoted to SSA
(sroa, mem2reg) and parsed.  The model keeps functions, blocks, instructions, globals, struct
layouts and the debug info needed to name source lines, struct fields and enumerators."""
import os, re, subprocess, hashlib, tempfile, shutil, functools

CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis itself cannot give an answer (vanished anchor, does not compile, ...)"""


def _run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def compile_ir(src, cflags=(), passes='sroa,mem2reg', tmpdir=None, code=None, name=None):
    """compile C file `src` (or text `code`) to textual IR and return it"""
    d = tempfile.mkdtemp(prefix='wcplsa')
    try:
        if code is not None:
            src = os.path.join(d, name or 'unit.c')
            with open(src, 'w') as f:
                f.write(code)
        a = os.path.join(d, 'a.ll')
        b = os.path.join(d, 'b.ll')
        _run([CLANG, '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
              '-ffp-contract=off', '-S', '-emit-llvm', '-o', a, *cflags, src])
        _run([OPT, '-S', '-passes=' + passes, '-o', b, a])
        with open(b) as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ types

class Ty:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(self, k, n=0, el=None, name=None):
        self.k = k; self.n = n; self.el = el; self.name = name

    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'st': return self.name or '{%s}' % ','.join(map(repr, self.el))
        return self.k


PTR = Ty('ptr'); VOID = Ty('void'); FLT = Ty('float'); DBL = Ty('double'); LABEL = Ty('label'); META = Ty('metadata')
X80 = Ty('x86_fp80'); PAD = Ty('opaque')
_ints = {}


def IT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t


_tok = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)|
  (?P<attr>\#[0-9]+)|
  (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)|
  (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)


def tokens(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = _tok.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise AnalysisError('IR token: ' + s[pos:pos + 60])
        pos = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


_esc = re.compile(r'\\(\\|[0-9A-Fa-f]{2})')


def _cstr(t):
    body = t[t.index('"') + 1:-1]
    return _esc.sub(lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), body).encode('latin-1')


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly', 'nonnull',
               'noalias', 'returned', 'immarg', 'readnone', 'noalias', 'nofree', 'swiftself', 'nest', 'writable',
               'dead_on_unwind', 'nosync', 'allocptr', 'allocalign'}
CC = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'fast', 'nnan',
      'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'dso_local', 'internal', 'hidden', 'local_unnamed_addr',
      'unnamed_addr', 'available_externally', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'private', 'common',
      'dso_preemptable', 'extern_weak', 'linkonce', 'inreg'}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'x', 'blk', 'idx')

    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x; self.dbg = None

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.dst, self.op, self.ty, self.a, self.x)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'preds')

    def __init__(self, name):
        self.name = name; self.ins = []; self.succ = (); self.preds = []


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'mod', 'dbg', 'internal', 'vararg', 'attrs', 'decl')

    def __repr__(self):
        return '<Func %s>' % self.name


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'mod', 'internal', 'ext', 'dbg')


class Parser:
    """recursive descent over the token list of one line"""

    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        v = self.t[self.i]; self.i += 1
        return v

    def isp(self, p):
        return self.i < len(self.t) and self.t[self.i] == ('p', p)

    def accept(self, p):
        if self.i < len(self.t) and self.t[self.i][1] == p and self.t[self.i][0] in ('p', 'word'):
            self.i += 1
            return True
        return False

    def expect(self, p):
        if not self.accept(p):
            raise AnalysisError('IR: expected %s at %r' % (p, self.t[self.i:self.i + 6]))

    def ty(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = IT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek() == ('word', 'addrspace'):
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v == 'void': t = VOID
            elif v == 'float': t = FLT
            elif v == 'double': t = DBL
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'x86_fp80': t = X80
            elif v == 'opaque': t = PAD
            elif v in ('half', 'bfloat', 'fp128'): t = Ty(v)
            else: raise AnalysisError('IR type ' + v)
        elif k == 'loc':
            t = Ty('st', name=v)
        elif (k, v) == ('p', '['):
            n = int(self.next()[1]); self.expect('x'); e = self.ty(); self.expect(']')
            t = Ty('arr', n, e)
        elif (k, v) == ('p', '<'):
            if self.isp('{'):
                t = self.ty(); self.expect('>')
                t = Ty('st', 1, t.el)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.ty(); self.expect('>')
                t = Ty('vec', n, e)
        elif (k, v) == ('p', '{'):
            el = []
            while not self.accept('}'):
                el.append(self.ty()); self.accept(',')
            t = Ty('st', 0, tuple(el))
        else:
            raise AnalysisError('IR type %r' % ((k, v),))
        if self.isp('('):  # function type: ret (args)
            j = self.i; depth = 0
            self.next(); args = []; va = False
            try:
                while not self.accept(')'):
                    if self.accept('...'): va = True
                    else: args.append(self.ty())
                    self.accept(',')
                t = Ty('fn', 1 if va else 0, (t, tuple(args)))
            except AnalysisError:
                self.i = j
        return t

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory',
                                       'elementtype', 'range', 'allocsize', 'captures'):
                self.next()
                if self.isp('('):
                    self.skip_parens()
                elif v == 'align':
                    self.next()
            else:
                return

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            k, v = self.next()
            if (k, v) == ('p', '('): d += 1
            elif (k, v) == ('p', ')'): d -= 1

    def val(self, ty):
        """operand of known type"""
        k, v = self.next()
        if k == 'loc': return ('r', v)
        if k == 'glob': return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty.k == 'i': return ('c', int(v) & ((1 << ty.n) - 1))
            return ('f', parse_fp(v, ty))
        if k == 'str':
            return ('bytes', _cstr(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('c', 0)
            if v in ('undef', 'poison'): return ('u', None)
            if v == 'zeroinitializer': return ('z', None)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                self.expect('(')
                bt = self.ty(); self.expect(',')
                pt = self.ty(); base = self.val(pt); idx = []
                while self.accept(','):
                    if self.peek()[1] == 'inrange': self.next()
                    it = self.ty(); idx.append((it, self.val(it)))
                self.expect(')')
                return ('cgep', (bt, base, idx))
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); t = self.ty(); x = self.val(t); self.expect('to'); t2 = self.ty(); self.expect(')')
                return ('ccast', (v, t, x, t2))
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'icmp'):
                while self.peek()[0] == 'word': self.next()
                self.skip_parens()
                return ('u', None)
            if v in ('splat',):
                self.expect('('); t = self.ty(); x = self.val(t); self.expect(')')
                return ('agg', [(t, x)] * ty.n)
        if (k, v) in (('p', '{'), ('p', '['), ('p', '<')):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.isp('{'):
                self.next(); close = '}'
                xs = []
                while not self.accept(close):
                    t = self.ty(); xs.append((t, self.val(t))); self.accept(',')
                self.expect('>')
                return ('agg', xs)
            xs = []
            while not self.accept(close):
                t = self.ty(); xs.append((t, self.val(t))); self.accept(',')
            return ('agg', xs)
        if k == 'meta':
            # metadata operand: swallow
            if self.isp('('):
                self.skip_parens()
            return ('m', v)
        raise AnalysisError('IR operand %r %r' % ((k, v), self.t))

    def tyval(self):
        t = self.ty(); self.skip_attrs()
        return t, self.val(t)


import struct as _struct


def parse_fp(v, ty):
    if v.startswith('0x') and len(v) > 3 and v[2] in 'KLMHR':
        return ('big', v)
    if v.startswith('0x'):
        return _struct.unpack('<d', int(v, 16).to_bytes(8, 'little'))[0]
    return float(v)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'samesign', 'inbounds', 'volatile', 'atomic'}


class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.meta = {}
        self._metacache = {}
        self.ptrsize = 4 if 'target triple = "wasm32' in text else 8
        self._parse(text)
        self._size = {}

    # -------------------------------------------------- layout
    def res(self, t):
        if t.k == 'st' and t.el is None:
            return self.types[t.name]
        return t

    def sizeof(self, t):
        k = t.k
        if k == 'i': return 16 if t.n > 64 else max(1, 1 << max(0, ((t.n + 7) // 8 - 1).bit_length()))
        if k == 'ptr': return self.ptrsize
        if k == 'float': return 4
        if k == 'double': return 8
        if k in ('x86_fp80', 'fp128'): return 16
        if k == 'arr': return t.n * self.sizeof(t.el)
        if k == 'vec': return t.n * self.sizeof(t.el)
        if k == 'st': return self.layout(t)[1]
        raise AnalysisError('sizeof %r' % t)

    def alignof(self, t):
        k = t.k
        if k == 'arr': return self.alignof(t.el)
        if k == 'vec': return self.sizeof(t)
        if k == 'st': return self.layout(t)[2]
        return self.sizeof(t)

    def layout(self, t):
        key = t.name or id(t)
        if key in self._size: return self._size[key]
        r = self.res(t)
        off = 0; offs = []; al = 1
        if r.k == 'opaque':
            res = ((), 0, 1)
        else:
            for e in r.el:
                a = 1 if r.n == 1 else self.alignof(e)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off); off += self.sizeof(e)
            res = (tuple(offs), (off + al - 1) // al * al, al)
        self._size[key] = res
        if not t.name: self._size[id(t)] = res; self._keep = getattr(self, '_keep', []); self._keep.append(t)
        return res

    # -------------------------------------------------- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        strip_dbg = re.compile(r', !([a-zA-Z.]+) (!\d+)')
        cur = None
        while i < n:
            ln = lines[i]; i += 1
            if not ln or ln[0] == ';':
                continue
            c = ln[0]
            if c == '%':
                name, rest = ln.split(' = type ', 1)
                p = Parser(self, tokens(rest))
                self.types[name] = p.ty()
            elif c == '@':
                self._global(ln)
            elif c == '!':
                k, v = ln.split(' = ', 1)
                self.meta[k] = v
            elif ln.startswith('define'):
                f = self._header(ln, False)
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self._body(f, body)
            elif ln.startswith('declare'):
                self._header(ln, True)
        return

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        g = Global(); g.name = m.group(1).strip('"'); rest = m.group(2)
        g.mod = self; g.internal = False; g.ext = False; g.dbg = None
        dm = re.search(r', !dbg (!\d+)', rest)
        if dm: g.dbg = dm.group(1)
        rest = re.sub(r', (?:align \d+|!dbg !\d+|section "[^"]*"|comdat)', '', rest)
        toks = tokens(rest)
        p = Parser(self, toks)
        while True:
            k, v = p.peek()
            if v in ('internal', 'private'): g.internal = True
            if v in ('external', 'extern_weak'): g.ext = True
            if v in ('global', 'constant'): break
            p.next()
            if p.isp('('): p.skip_parens()
        g.const = p.next()[1] == 'constant'
        g.ty = p.ty()
        g.init = None
        if not g.ext:
            g.init = p.val(g.ty)
        self.globals[g.name] = g

    def _header(self, ln, decl):
        f = Func(); f.mod = self; f.decl = decl; f.blocks = {}; f.order = []; f.dbg = None
        m = re.search(r'!dbg (!\d+)', ln)
        if m: f.dbg = m.group(1)
        head = re.sub(r' !dbg !\d+', '', ln)
        p = Parser(self, tokens(head[len('declare ' if decl else 'define '):]))
        f.internal = False
        while p.peek()[1] in CC or p.peek()[1] in PARAM_ATTRS:
            if p.next()[1] == 'internal': f.internal = True
        p.skip_attrs()
        while p.peek()[1] in CC: p.next()
        # return type: careful with function-type lookahead
        k, v = p.peek()
        f.ret = p.ty() if True else None
        if f.ret.k == 'fn': f.ret = f.ret.el[0]
        p.skip_attrs()
        f.name = p.next()[1][1:].strip('"')
        f.params = []; f.vararg = False
        p.expect('(')
        while not p.accept(')'):
            if p.accept('...'): f.vararg = True; continue
            t = p.ty(); p.skip_attrs(); nm = None
            if p.peek()[0] == 'loc': nm = p.next()[1]
            f.params.append((t, nm)); p.accept(',')
        f.attrs = ln[ln.rindex(')'):] if ')' in ln else ''
        self.funcs[f.name] = f
        return f

    def _body(self, f, body):
        # unnamed parameters are %0.. in order
        cnt = 0
        ps = []
        for t, nm in f.params:
            if nm is None:
                nm = '%%%d' % cnt; cnt += 1
            ps.append((t, nm))
        f.params = ps
        cur = None
        j = 0
        while j < len(body):
            ln = body[j]; j += 1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            if ln[0] != ' ':
                name = ln.split(':')[0].strip('"')
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                cur = Block('%' + m.group(1).strip('"'))
                f.blocks[cur.name] = cur; f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%' + str(cnt)); f.blocks[cur.name] = cur; f.order.append(cur.name)
            s = ln.strip()
            if '@llvm.dbg.' in s: continue
            if s.startswith('switch') and s.endswith('['):
                while True:
                    x = body[j].strip(); j += 1
                    s += ' ' + x
                    if x.startswith(']'): break
            ins = self._instr(s)
            if ins is not None:
                ins.blk = cur; ins.idx = len(cur.ins)
                cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = (t.x,)
            elif t.op == 'condbr': b.succ = t.x
            elif t.op == 'switch': b.succ = tuple(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].preds.append(b.name)

    def _lab(self, p):
        p.expect('label')
        return '%' + p.next()[1][1:].strip('"')

    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m: dbg = m.group(1)
        s = re.sub(r', !([a-zA-Z._0-9]+) !\d+', '', s)
        p = Parser(self, tokens(s))
        dst = None
        if p.peek()[0] == 'loc' and p.t[1] == ('p', '='):
            dst = p.next()[1]; p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        ins = None
        if op in BINOPS:
            while p.peek()[1] in FLAGS: p.next()
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            ins = Instr(op, dst, t, (a, b))
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in FLAGS: p.next()
            pr = p.next()[1]; t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            ins = Instr(op, dst, t, (a, b), pr)
        elif op == 'fneg':
            while p.peek()[1] in FLAGS: p.next()
            t, a = p.tyval(); ins = Instr(op, dst, t, (a,))
        elif op in CASTS:
            while p.peek()[1] in FLAGS: p.next()
            t, a = p.tyval(); p.expect('to'); t2 = p.ty()
            ins = Instr(op, dst, t2, (a,), t)
        elif op == 'load':
            while p.peek()[1] in FLAGS: p.next()
            t = p.ty(); p.expect(','); pt = p.ty(); a = p.val(pt)
            ins = Instr(op, dst, t, (a,))
        elif op == 'store':
            while p.peek()[1] in FLAGS: p.next()
            t, v = p.tyval(); p.expect(','); pt = p.ty(); a = p.val(pt)
            ins = Instr(op, None, t, (v, a))
        elif op == 'getelementptr':
            while p.peek()[1] in FLAGS: p.next()
            bt = p.ty(); p.expect(','); pt = p.ty(); base = p.val(pt); idx = []
            while p.accept(','):
                it = p.ty(); idx.append((it, p.val(it)))
            ins = Instr('gep', dst, bt, (base,), idx)
        elif op == 'alloca':
            t = p.ty(); cnt = None
            while p.accept(','):
                if p.peek()[1] in ('align', 'addrspace'): break
                it = p.ty(); cnt = (it, p.val(it))
            ins = Instr(op, dst, t, (), cnt)
        elif op == 'br':
            if p.peek()[1] == 'label':
                ins = Instr('br', None, None, (), self._lab(p))
            else:
                t = p.ty(); c = p.val(t); p.expect(','); l1 = self._lab(p); p.expect(','); l2 = self._lab(p)
                ins = Instr('condbr', None, t, (c,), (l1, l2))
        elif op == 'switch':
            t = p.ty(); v = p.val(t); p.expect(','); d = self._lab(p); p.expect('['); cases = []
            while not p.accept(']'):
                ct = p.ty(); cv = p.val(ct); p.expect(','); cases.append((cv[1], self._lab(p)))
            ins = Instr('switch', None, t, (v,), (d, cases))
        elif op == 'ret':
            t = p.ty()
            ins = Instr('ret', None, t, () if t.k == 'void' else (p.val(t),))
        elif op == 'unreachable':
            ins = Instr(op)
        elif op == 'phi':
            while p.peek()[1] in FLAGS: p.next()
            t = p.ty(); inc = []
            while p.accept('['):
                v = p.val(t); p.expect(','); l = p.next()[1]; p.expect(']'); p.accept(',')
                inc.append((v, '%' + l[1:].strip('"')))
            ins = Instr(op, dst, t, (), inc)
        elif op == 'select':
            while p.peek()[1] in FLAGS: p.next()
            ct, c = p.tyval(); p.expect(','); t, a = p.tyval(); p.expect(','); t2, b = p.tyval()
            ins = Instr(op, dst, t, (c, a, b))
        elif op == 'call':
            while p.peek()[1] in CC or p.peek()[1] in FLAGS or p.peek()[1] in PARAM_ATTRS: p.next()
            p.skip_attrs()
            rt = p.ty(); fnty = None
            if rt.k == 'fn': fnty = rt; rt = rt.el[0]
            p.skip_attrs()
            if p.peek()[1] == 'asm':
                raise AnalysisError('inline asm')
            callee = p.val(PTR)
            p.expect('('); args = []
            while not p.accept(')'):
                t = p.ty(); p.skip_attrs()
                if t.k == 'metadata':
                    while not (p.isp(',') or p.isp(')')):
                        if p.isp('('): p.skip_parens()
                        else: p.next()
                    args.append((t, ('m', None)))
                else:
                    args.append((t, p.val(t)))
                p.accept(',')
            ins = Instr('call', dst, rt, tuple(v for _, v in args), (callee, tuple(t for t, _ in args), fnty))
        elif op == 'extractvalue':
            t, a = p.tyval(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            ins = Instr(op, dst, t, (a,), idx)
        elif op == 'insertvalue':
            t, a = p.tyval(); p.expect(','); t2, b = p.tyval(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            ins = Instr(op, dst, t, (a, b), (idx, t2))
        elif op == 'freeze':
            t, a = p.tyval(); ins = Instr(op, dst, t, (a,))
        elif op == 'va_arg':
            pt, a = p.tyval(); p.expect(','); t = p.ty(); ins = Instr(op, dst, t, (a,))
        elif op in ('extractelement', 'insertelement', 'shufflevector', 'atomicrmw', 'cmpxchg', 'fence'):
            ins = Instr('unknown', dst, None, (), op)
        else:
            raise AnalysisError('IR instr ' + s)
        ins.dbg = dbg
        return ins

    # -------------------------------------------------- debug info
    def md(self, ref):
        """parsed metadata node as dict (kind, fields)"""
        if ref in self._metacache: return self._metacache[ref]
        v = self.meta.get(ref)
        if v is None: return None
        if v.startswith('distinct '): v = v[9:]
        d = {}
        m = re.match(r'!([A-Za-z]+)\((.*)\)$', v, re.S)
        if m:
            d['kind'] = m.group(1)
            for fm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                d[fm.group(1)] = fm.group(2).strip('"')
        else:
            d['kind'] = 'tuple'
            d['el'] = re.findall(r'!\d+|null', v[v.index('{'):]) if '{' in v else []
        self._metacache[ref] = d
        return d

    def loc(self, ref):
        """(file, line) of a !dbg reference"""
        d = self.md(ref) if ref else None
        if not d: return ('?', 0)
        line = int(d.get('line', 0))
        s = d
        while s and 'file' not in s:
            s = self.md(s.get('scope')) if s.get('scope') else None
        fn = '?'
        if s:
            f = self.md(s['file'])
            if f: fn = f.get('filename', '?')
        return (fn, line)

    def where(self, ins):
        f, l = self.loc(ins.dbg)
        return '%s:%d' % (f.replace(REPO + '/', ''), l)

    def fwhere(self, func):
        f, l = self.loc(func.dbg)
        return '%s:%d' % (f.replace(REPO + '/', ''), l)

    @functools.cached_property
    def enumerators(self):
        r = {}
        for k, v in self.meta.items():
            if v.startswith('!DIEnumerator('):
                m = re.match(r'!DIEnumerator\(name: "([^"]*)", value: (-?\d+)', v)
                if m: r[m.group(1)] = int(m.group(2))
        return r

    @functools.cached_property
    def structs(self):
        """struct name (tag or typedef) -> {member: (offset_bytes, typeref)} from debug info"""
        r = {}
        for k, v in self.meta.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v or 'DICompositeType(tag: DW_TAG_union_type' in v:
                d = self.md(k)
                el = self.md(d.get('elements')) if d.get('elements') else None
                mem = {}
                if el:
                    for e in el['el']:
                        x = self.md(e)
                        if x and x.get('tag') == 'DW_TAG_member':
                            mem[x.get('name', '')] = (int(x.get('offset', 0)) // 8, x.get('baseType'), int(x.get('size', 0)) // 8)
                r[k] = mem
        out = {}
        for k in r:
            d = self.md(k)
            if d.get('name'): out[d['name']] = r[k]
        for k, v in self.meta.items():
            if v.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                d = self.md(k)
                if d.get('baseType') in r and d['name'] not in out:
                    out[d['name']] = r[d['baseType']]
        return out

    def offset(self, path):
        """'inscode.arg2.u' -> byte offset through debug info"""
        parts = path.split('.')
        mem = self.structs.get(parts[0])
        if mem is None: raise AnalysisError('no struct %s in %s' % (parts[0], self.name))
        off = 0; i = 1
        while i < len(parts):
            if parts[i] not in mem: raise AnalysisError('no member %s in %s' % (parts[i], path))
            o, bt, sz = mem[parts[i]]
            off += o
            i += 1
            if i < len(parts):
                d = self.md(bt)
                while d.get('kind') == 'DIDerivedType' : d = self.md(d['baseType'])
                el = self.md(d['elements'])
                mem = {}
                for e in el['el']:
                    x = self.md(e)
                    if x and x.get('tag') == 'DW_TAG_member':
                        mem[x.get('name', '')] = (int(x.get('offset', 0)) // 8, x.get('baseType'), int(x.get('size', 0)) // 8)
        return off


class Program:
    def __init__(self, mods):
        self.mods = {m.name: m for m in mods}
        self.ext = {}
        self.gext = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.decl and not f.internal:
                    self.ext[f.name] = f
            for g in m.globals.values():
                if not g.ext and not g.internal:
                    self.gext[g.name] = g

    def func(self, name, mod=None):
        """defined function by name: first in its module, then external, then any unique static"""
        if mod is not None:
            f = mod.funcs.get(name)
            if f is not None and not f.decl: return f
        f = self.ext.get(name)
        if f is not None: return f
        if mod is None:
            c = [m.funcs[name] for m in self.mods.values() if name in m.funcs and not m.funcs[name].decl]
            if len(c) == 1: return c[0]
        return None

    def glob(self, name, mod):
        g = mod.globals.get(name)
        if g is not None and not g.ext: return g
        return self.gext.get(name)

    def allfuncs(self):
        for m in self.mods.values():
            for f in m.funcs.values():
                if not f.decl: yield f


UNITS = ['l.c', 'w.c', 'p.c', 'c.c']
_prog = {}


def compiler_program(units=None):
    """the wcpl compiler itself: every top-level .c unit of the repository"""
    if units is None:
        units = sorted(f for f in os.listdir(REPO) if f.endswith('.c'))
    key = tuple(units)
    if key not in _prog:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda u: compile_ir(os.path.join(REPO, u)), units))
        _prog[key] = Program([Module(u, t) for u, t in zip(units, texts)])
    return _prog[key]
