"""Start and end of a program: the start-up modules, the _start function the compiler generates, atexit, exit, abort and the
closing of streams are interpreted abstractly with unknown arguments, statuses and results of main."""
from lib import *
from lib import _id
import lib
from c35 import X
import itertools
LEVEL = 'other'
P = '$wasi_snapshot_preview1:'
lib.USERS.update({
    'envv.h': '#pragma once\n#pragma module "envv"\nextern int body(void);\n',
    'enva.h': '#pragma once\n#pragma module "enva"\nextern int body(int, char **);\n',
    'mvoid': '#include <envv.h>\nint main(void) { return body(); }\n',
    'margs': '#include <enva.h>\nint main(int argc, char **argv) { return body(argc, argv); }\n',
    'mdata': '#include <stdlib.h>\n#include <stdio.h>\n#include <enva.h>\nint main(int argc, char **argv) { return body(argc, argv); }\n',
})


class System:
    def __init__(self, x, args=None, sizes_err=0, get_err=0):
        self.x = x; self.log = []; self.args = args; h = x.r.hooks
        h[P + 'args_sizes_get'] = self.sizes; h[P + 'args_get'] = self.get; h[P + 'fd_write'] = self.write; h[P + 'proc_exit'] = self.exit
        h[P + 'fd_close'] = lambda r, fd: (self.log.append(('close', fd)), 0)[1]
        h[P + 'fd_fdstat_get'] = self.stat; h[P + 'fd_seek'] = lambda r, *a: 29
        self.e1 = sizes_err; self.e2 = get_err; self.gets = 0

    def sizes(self, r, pc, pb):
        if self.e1: return self.e1
        r.addr(pc, 4, True); r.addr(pb, 4, True)
        r.mem.write(pc, 4, len(self.args)); r.mem.write(pb, 4, sum(len(a) + 1 for a in self.args)); return 0

    def get(self, r, pp, pb):
        self.gets += 1
        if self.e2: return self.e2
        for a in self.args:
            r.addr(pp, 4, True); r.mem.write(pp, 4, pb); pp += 4
            for c in list(a) + [0]: r.addr(pb, 1, True); r.mem.write(pb, 1, c); pb += 1
        return 0

    def write(self, r, fd, v, n, pn):
        t = []; k = 0
        for i in range(n):
            p = r.mem.read(r.addr(v + 8 * i, 4, False), 4); m = r.c.conc(r.mem.read(r.addr(v + 8 * i + 4, 4, False), 4)); k += m
            for j in range(m): r.addr(p + j, 1, False); t.append(r.mem.read(p + j, 1))
        if t: self.log.append(('write', fd, t))
        r.addr(pn, 4, True); r.mem.write(pn, 4, k); return 0

    def stat(self, r, fd, p):
        r.addr(p, 24, True)
        for i in range(24): r.mem.write(p + i, 1, 0)
        r.mem.write(p, 1, 4); return 0

    def exit(self, r, st): self.log.append(('exit', st)); raise Exit(st)


def leave(x, fn, *a):
    """the call must end the program"""
    try: x.call(fn, *a)
    except Exit: return
    raise Bad('%s returns' % fn)


def argv(x, sy, what):
    n = x.conc(x.r.glob['$crt:_argc']); p = x.conc(x.r.glob['$crt:_argv'])
    if n != len(sy.args): raise Bad(what + ': argc', len(sy.args), n)
    strings(x, sy, p, what)


def strings(x, sy, p, what):
    for i, a in enumerate(sy.args):
        q = x.conc(x.read(p + 4 * i, 4))
        for j, c in enumerate(list(a) + [0]):
            x.expect('%s: byte %d of argv[%d]' % (what, j, i), x.read(q + j, 1), c, 8)
    x.expect('%s: argv[argc]' % what, x.read(p + 4 * len(sy.args), 4), 0)


def scenarios(thorough):
    out = []

    def add(rule, key, f): out.append((rule, key, f))
    shapes = [(k,) for k in (0, 1, 3, 12, 13, 14, 15, 16, 17)] + [(1, 1), (5, 2, 9), (0, 0, 0), (3, 3, 3, 3, 3), (1,) * 9, (30, 1)]
    for shp in shapes:
        def mk_(x, shp=shp): return [[x.sym('a%d_%d' % (i, j), 8, range(1, 256)) for j in range(k)] for i, k in enumerate(shp)]
        for crt in ('args', 'argv'):
            def f(x, crt=crt, mk_=mk_):
                x.use(crt); sy = System(x, mk_(x))
                if crt == 'args':
                    p = x.obj([0xAA] * 1024); x.r.glob['$crt:stack_base'] = p; x.r.glob['$crt:heap_base'] = p + 1024
                for _ in range(2): x.call('crt:initialize'); argv(x, sy, 'initialize')
                if sy.log: raise Bad('initialize has an effect', None, str(sy.log))
                if sy.gets != 1: raise Bad('arguments are fetched again', 1, sy.gets)
            add('arguments', '%s_%s' % (crt, '.'.join(map(str, shp))), f)

        def f(x, mk_=mk_, shp=shp):
            # the area must not be left: with every size, either everything fits or the arguments are given up
            d = x.sym('room', 8, range(64)); room = x.conc(d)
            tot = sum(k + 1 for k in shp); need = (tot + 15) // 16 * 16 + 4 * (len(shp) + 1)
            size = max(0, need - 32 + room)
            x.use('args'); sy = System(x, mk_(x)); p = x.obj([0xAA] * (size + 1), 16); x.r.mem.b.pop(p + size)
            x.r.glob['$crt:stack_base'] = p; x.r.glob['$crt:heap_base'] = p + size
            x.call('crt:initialize')
            if size >= need: argv(x, sy, 'initialize with %d bytes of room' % size)
            elif x.r.glob['$crt:_argc'] != len(sy.args) or sy.log: giveup(x, sy)
        add('arguments', 'room_%s' % '.'.join(map(str, shp)), f)

    def giveup(x, sy):
        x.expect('argc without arguments', x.r.glob['$crt:_argc'], 1); p = x.conc(x.r.glob['$crt:_argv'])
        x.expect('argv[0] without arguments', x.read(x.conc(x.read(p, 4)), 1), 0, 8); x.expect('argv[1] without arguments', x.read(p + 4, 4), 0)
        if not sy.log or any(e[:2] != ('write', 2) for e in sy.log): raise Bad('no message when arguments cannot be fetched', None, str(sy.log))
    for crt in ('args', 'argv'):
        for k in ('sizes', 'get', 'none') + (('grow',) if crt == 'argv' else ()):
            def f(x, crt=crt, k=k):
                x.use(crt); e = 8
                sy = System(x, [] if k == 'none' else [[65, 66]], e if k == 'sizes' else 0, e if k == 'get' else 0)
                if crt == 'args': p = x.obj([0xAA] * 256); x.r.glob['$crt:stack_base'] = p; x.r.glob['$crt:heap_base'] = p + 256
                if k == 'grow': x.r.hooks['memory.grow'] = lambda r, n: False
                x.call('crt:initialize'); giveup(x, sy)
            add('arguments', 'failure_%s_%s' % (crt, k), f)

    def f(x): x.use('void'); sy = System(x, []); x.call('crt:initialize'); x.expect('calls', len(sy.log), 0)
    add('arguments', 'void', f)
    # the start function
    for u in ('mvoid', 'margs', 'mdata'):
        for crt in (('void', 'args', 'argv') if u == 'mvoid' else ('args', 'argv')):
            for n in (0, 2):
                def f(x, u=u, crt=crt, n=n):
                    x.use(crt, u); sy = System(x, [[65]] + [[x.sym('a%d' % i, 8, range(1, 256))] for i in range(n)]); st = binop('add', 32, zext(x.sym('st', 9), 9, 32), -128 & M(32)); sp = []
                    if crt == 'args': p = x.obj([0xAA] * 256); x.r.glob['$crt:stack_base'] = p; x.r.glob['$crt:heap_base'] = p + 256

                    def body(r, *a):
                        sy.log.append('main'); sp.append(x.r.glob['$crt:sp$'])
                        if u != 'mvoid': x.expect('argc in main', a[0], len(sy.args)); strings(x, sy, x.conc(a[1]), 'main')
                        return st
                    bn = [m[1] for m in x.r.img.imported[u] if m[1] == 'body']
                    x.r.hooks['$%s:body' % ([m[0] for m in x.r.img.imported[u] if m[1] == 'body'] or [u])[0]] = body
                    start = [q for q in x.r.img.funcs if q.endswith(':_start')]
                    if len(start) != 1: raise Stuck('start functions: %s' % start)
                    leave(x, start[0][1:])
                    if len(sy.log) != 2 or sy.log[0] != 'main': raise Bad('what the program does', "main, exit", str(sy.log))
                    x.expect('exit status', sy.log[1][1], st)
                    if x.conc(sp[0]) > STK: raise Bad('stack pointer in main')
                add('start', '%s_%s_%d' % (u, crt, n), f)
    # exit handlers
    for crt in ('args', 'argv', 'void'):
        for n in (0, 1, 2, 3, 31, 32, 33):
            def f(x, crt=crt, n=n):
                x.use(crt); sy = System(x, []); st = binop('sub', 32, zext(x.sym('st', 9), 9, 32), 200); reg = []
                for i in range(n):
                    x.r.hooks[0x6000 + i] = lambda r, i=i: sy.log.append(i)
                    r = x.conc(x.call('stdlib:atexit', 0x6000 + i))
                    if r == 0: reg.append(i)
                    elif i < 32: raise Bad('atexit refuses function %d' % (i + 1), 0, r)
                leave(x, 'stdlib:exit', st)
                if sy.log[:-1] != reg[::-1]: raise Bad('functions called at exit', str(reg[::-1]), str(sy.log[:-1]))
                if sy.log[-1][0] != 'exit': raise Bad('what ends the program', 'exit', str(sy.log[-1]))
                x.expect('exit status', sy.log[-1][1], st)
            add('exit', '%s_%d' % (crt, n), f)

        def f(x, crt=crt):
            x.use(crt); sy = System(x, [])
            def h(i, more=None):
                def g(r):
                    sy.log.append(i)
                    if more is not None: x.r.call('$stdlib:atexit', more)
                return g
            x.r.hooks[0x6000] = h(0); x.r.hooks[0x6001] = h(1, 0x6003); x.r.hooks[0x6002] = h(2); x.r.hooks[0x6003] = h(3)
            for i in range(3): x.call('stdlib:atexit', 0x6000 + i)
            leave(x, 'stdlib:exit', 3)
            if sy.log[:-1] != [2, 1, 3, 0]: raise Bad('functions called at exit when one registers another', '[2, 1, 3, 0]', str(sy.log[:-1]))
        add('exit', '%s_nested' % crt, f)
    for fn in ('stdlib:abort', 'unistd:_exit'):
        def f(x, fn=fn):
            sy = System(x, []); x.r.hooks[0x6000] = lambda r: sy.log.append('handler'); x.call('stdlib:atexit', 0x6000); st = zext(x.sym('st', 8), 8, 32)
            leave(x, fn, *([st] if fn != 'stdlib:abort' else []))
            if len(sy.log) != 1: raise Bad(fn + ' does more than ending the program', None, str(sy.log))
            if fn != 'stdlib:abort': x.expect('status', sy.log[0][1], st)
            elif x.conc(sy.log[0][1]) == 0: raise Bad('abort reports success')
        add('exit', fn, f)
    # buffered output is written before the end, by handlers too, whenever they are registered
    for before in ('', 'h', 'hp'):
        for n in (0, 1, 2):
            for after in ('', 'h', 'hp', 'p'):
                for st in ('stdout', 'file', 'stderr'):
                    def f(x, before=before, n=n, after=after, st=st):
                        sy = System(x, []); exp = []; k = [0]; fp = [None]
                        d = x.r.img.data['$stdio:_iob']; step = d.size // 20

                        def stream():
                            if st == 'stdout': return d.addr + step
                            if st == 'stderr': return d.addr + 2 * step
                            if fp[0] is None: fp[0] = x.conc(x.r.call('$stdio:fdopen', 7, W_))
                            return fp[0]
                        W_ = x.cstr('w')

                        def put(): k[0] += 1; t = x.sym('c%d' % k[0], 8); x.r.call('$stdio:fputc', zext(t, 8, 32), stream()); exp.append(t)

                        def reg(p):
                            q = 0x6000 + len(x.r.hooks); x.r.hooks[q] = lambda r: (sy.log.append('h'), put() if p else None)[0]; x.call('stdlib:atexit', q)
                        if before: reg('p' in before)
                        for i in range(n): put()
                        if 'h' in after: reg('p' in after)
                        if after == 'p': put()
                        leave(x, 'stdlib:exit', 0)
                        fd = {'stdout': 1, 'stderr': 2, 'file': 7}[st]
                        got = [t for e in sy.log if e[0] == 'write' and e[1] == fd for t in e[2]]
                        if any(e[0] == 'write' and e[1] != fd for e in sy.log): raise Bad('output to another descriptor', fd, str(sy.log))
                        if len(got) != len(exp): raise Bad('%d of %d characters are written when the program ends' % (len(got), len(exp)), len(exp), len(got))
                        for i, (g, e) in enumerate(zip(got, exp)): x.expect('character %d written when the program ends' % i, g, e, 8)
                        if sy.log[-1][0] != 'exit': raise Bad('something happens after the end', 'exit', str(sy.log[-1]))
                        if st == 'file' and fp[0] and sum(e == ('close', 7) for e in sy.log) != 1: raise Bad('the file is not closed once', None, str(sy.log))
                    add('streams', '%s_%d_%s_%s' % (before, n, after, st), f)
    return out


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, {'arguments': 'lib/src/crt.*.c:initialize', 'start': 'c.c', 'exit': 'lib/src/crt.*.c:terminate', 'streams': 'lib/src/stdio.c'}[rule], maxclasses=6000)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
