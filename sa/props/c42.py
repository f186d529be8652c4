"""The system interface: each function of unistd.h, fcntl.h, sys/stat.h, dirent.h and the file functions of stdio.h is
interpreted abstractly with unknown arguments, against a system whose results, error codes and data are unknown; in every
class it must ask the system for exactly what its arguments say and hand back the result, the data and the error."""
from lib import *
from lib import _id
import itertools
LEVEL = 'other'
P = '$wasi_snapshot_preview1:'
EBADF, EINVAL, ENOENT, ENOTCAPABLE, ESPIPE, EISDIR, ENOTDIR, EACCES, ENOTTY, ENOMEM = 8, 28, 44, 76, 70, 31, 54, 2, 59, 48
FDR = dict(datasync=1 << 0, read=1 << 1, seek=1 << 2, setflags=1 << 3, sync=1 << 4, tell=1 << 5, write=1 << 6, advise=1 << 7, allocate=1 << 8, readdir=1 << 14, setsize=1 << 22)


def wide(x, name, n=32):
    r = ()
    for i in range(n // 8): r += bits(x.sym('%s%d' % (name, i), 8), 8)
    return mkbits(r)


def has(x, t, mask):
    """is one of these bits set"""
    for i, b in enumerate(bits(t, t.w)):
        if mask >> i & 1 and b != 0 and (b == 1 or x.c.bit(b)): return True
    return False


class Sys:
    """the system: calls are recorded; results are those given"""

    def __init__(self, x, preopens=(('/', 3),)):
        self.x = x; self.log = []; self.pre = dict((f, n) for n, f in preopens); self.n = 0; self.asked = []
        x.r.hooks[P + 'fd_prestat_get'] = self.prestat; x.r.hooks[P + 'fd_prestat_dir_name'] = self.dirname

    def prestat(self, r, fd, p):
        fd = r.c.conc(fd); self.asked.append(fd)
        if fd not in self.pre: return EBADF
        n = self.pre[fd]; r.addr(p, 8, True); r.mem.write(p, 4, 0); r.mem.write(p + 4, 4, len(n)); return 0

    def dirname(self, r, fd, p, n):
        for i, c in enumerate(self.pre[r.c.conc(fd)].encode()[:n]): r.addr(p + i, 1, True); r.mem.write(p + i, 1, c)
        return 0

    def on(self, name, outs=(), look=None, fail=True, fill=None):
        """outs: (argument index, bytes, value) stored on success; fail: may report an error"""
        self.n += 1; e = self.x.sym('e%d' % self.n, 8, range(0, 77)) if fail else 0

        def h(r, *a):
            self.log.append((name, a, look(r, a) if look else None))
            if e == 0 or self.x.case(lambda e: e == 0, e):
                for i, n, v in outs: r.addr(a[i], n, True); r.mem.write(a[i], n, v)
                if fill: fill(r, a)
                return 0
            return zext(e, 8, 32)
        self.x.r.hooks[P + name] = h
        return e

    def err(self): return self.x.r.glob['$errno:errno']


def io(r, a):
    if r.c.conc(a[2]) != 1: raise Bad('number of buffers', 1, r.c.conc(a[2]))
    return r.mem.read(r.addr(a[1], 4, False), 4), r.mem.read(r.addr(a[1] + 4, 4, False), 4)


def path(pi, li):
    def look(r, a):
        p = r.c.conc(a[pi]); n = r.c.conc(a[li])
        for i in range(n): r.addr(p + i, 1, False)
        return [r.mem.read(p + i, 1) for i in range(n)]
    return look


def match(x, what, got, exp, w=32):
    """arguments of a system call; expectations are (value, width) or None"""
    if len(got) != len(exp): raise Bad(what + ': number of arguments', len(exp), len(got))
    for i, (g, e) in enumerate(zip(got, exp)):
        if e is None: continue
        v, n = e if isinstance(e, tuple) else (e, 32)
        x.expect('%s: argument %d of the system call' % (what, i + 1), g, v, n)


def same(x, what, got, exp):
    if len(got) != len(exp): raise Bad('%s has %d characters' % (what, len(got)), len(exp), len(got))
    for i, (g, e) in enumerate(zip(got, exp)): x.expect('%s: character %d' % (what, i), g, e, 8)


def result(x, sy, what, r, e, ok, w=32, emap=None, calls=1):
    if len(sy.log) != calls: raise Bad('%s: number of system calls' % what, calls, '%d: %s' % (len(sy.log), [l[0] for l in sy.log]))
    if e == 0 or x.case(lambda v: v == 0, e): x.expect(what + ': result', r, ok, w); return True
    x.expect(what + ': result after an error', r, M(w), w)
    x.test(what + ': errno', lambda g, v: g == (emap or {}).get(v, v), sy.err(), e)
    return False


def scenarios(thorough):
    out = []

    def add(rule, key, f): out.append((rule, key, f))
    NB_ = {ENOTCAPABLE: EBADF}
    # ---- descriptors
    for fn, imp in (('read', 'fd_read'), ('write', 'fd_write')):
        def f(x, fn=fn, imp=imp):
            sy = Sys(x); fd = wide(x, 'fd'); b = wide(x, 'buf'); n = wide(x, 'n'); k = wide(x, 'k')
            e = sy.on(imp, [(3, 4, k)], io); r = x.call('unistd:' + fn, fd, b, n)
            result(x, sy, fn, r, e, k, emap=NB_); match(x, fn, sy.log[0][1], [fd, None, 1, None]); match(x, fn, sy.log[0][2], [b, n])
        add('descriptors', fn, f)
    for fn, imp, right in (('pread', 'fd_pread', 'read'), ('pwrite', 'fd_pwrite', 'write')):
        def f(x, fn=fn, imp=imp, right=right):
            sy = Sys(x); fd = wide(x, 'fd'); b = wide(x, 'buf'); n = wide(x, 'n'); k = wide(x, 'k'); off = wide(x, 'o', 64); rights = wide(x, 'r', 64)
            e = sy.on(imp, [(4, 4, k)], io); e2 = sy.on('fd_fdstat_get', [(1, 8, 0), (1, 2, 4)], fill=lambda r, a: (r.addr(a[1], 24, True), r.mem.write(a[1] + 8, 8, rights), r.mem.write(a[1] + 16, 8, 0)))
            r = x.call('unistd:' + fn, fd, b, n, off)
            if has(x, off, 1 << 63):
                x.expect(fn + ' at a negative offset', r, M(32)); x.expect('errno', sy.err(), EINVAL)
                if sy.log: raise Bad(fn + ' at a negative offset calls the system')
                return
            match(x, fn, sy.log[0][1], [fd, None, 1, (off, 64), None]); match(x, fn, sy.log[0][2], [b, n])
            if x.case(lambda v: v == 0, e): x.expect(fn, r, k); return
            x.expect(fn + ' after an error', r, M(32))
            if not x.case(lambda v: v == ENOTCAPABLE, e): x.expect(fn + ': errno', sy.err(), zext(e, 8, 32)); return
            if not x.case(lambda v: v == 0, e2): x.expect(fn + ': errno', sy.err(), ENOTCAPABLE); return
            x.expect(fn + ': errno', sy.err(), ESPIPE if has(x, rights, FDR[right]) else EBADF)
        add('descriptors', fn, f)

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); off = wide(x, 'o', 64); wh = x.sym('wh', 8, range(3)); pos = wide(x, 'p', 64); e = sy.on('fd_seek', [(3, 8, pos)])
        r = x.call('unistd:lseek', fd, off, zext(wh, 8, 32)); result(x, sy, 'lseek', r, e, pos, 64, {ENOTCAPABLE: ESPIPE}); match(x, 'lseek', sy.log[0][1], [fd, (off, 64), zext(wh, 8, 32), None])
    add('descriptors', 'lseek', f)

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); off = wide(x, 'o', 64); e = sy.on('fd_filestat_set_size'); r = x.call('unistd:ftruncate', fd, off)
        if has(x, off, 1 << 63):
            x.expect('ftruncate to a negative size', r, M(32)); x.expect('errno', sy.err(), EINVAL)
            if sy.log: raise Bad('ftruncate to a negative size calls the system')
            return
        result(x, sy, 'ftruncate', r, e, 0); match(x, 'ftruncate', sy.log[0][1], [fd, (off, 64)])
    add('descriptors', 'ftruncate', f)
    for fn, imp, em in (('close', 'fd_close', {}), ('fdatasync', 'fd_datasync', NB_), ('fsync', 'fd_sync', {ENOTCAPABLE: EINVAL})):
        def f(x, fn=fn, imp=imp, em=em):
            sy = Sys(x); fd = wide(x, 'fd'); e = sy.on(imp); r = x.call('unistd:' + fn, fd); result(x, sy, fn, r, e, 0, emap=em); match(x, fn, sy.log[0][1], [fd])
        add('descriptors', fn, f)

    def stat(ft, fl, base, inh):
        def fill(r, a):
            r.addr(a[1], 24, True)
            for i in range(24): r.mem.write(a[1] + i, 1, 0)
            r.mem.write(a[1], 1, ft); r.mem.write(a[1] + 2, 2, fl); r.mem.write(a[1] + 8, 8, base); r.mem.write(a[1] + 16, 8, inh)
        return fill

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); ft = x.sym('type', 8, range(8)); base = wide(x, 'r', 64); e = sy.on('fd_fdstat_get', fill=stat(ft, 0, base, 0)); r = x.call('unistd:isatty', fd)
        match(x, 'isatty', sy.log[0][1], [fd, None])
        if not x.case(lambda v: v == 0, e): x.expect('isatty', r, 0); x.expect('isatty: errno', sy.err(), zext(e, 8, 32)); return
        if x.case(lambda t: t == 2, ft) and not has(x, base, 0x24): x.expect('isatty of a terminal', r, 1)
        else: x.expect('isatty of something else', r, 0); x.expect('isatty: errno', sy.err(), ENOTTY)
    add('descriptors', 'isatty', f)

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); fl = x.sym('fl', 8, range(32)); base = wide(x, 'r', 64); e = sy.on('fd_fdstat_get', fill=stat(4, zext(fl, 8, 16), base, 0)); r = x.call('fcntl:fcntl', fd, 3, *va_(x, []))
        match(x, 'fcntl', sy.log[0][1], [fd, None]); O = lambda b: (0x14000000 if b & 0x40 else 0x04000000) if b & 0x4002 else 0x10000000 if b & 0x40 else 0x08000000
        if x.case(lambda v: v == 0, e): o = O((2 if has(x, base, 0x4002) else 0) | (0x40 if has(x, base, 0x40) else 0)); x.test('F_GETFL', lambda r, f: r == f | o, r, fl)
        else: x.expect('F_GETFL', r, M(32)); x.expect('errno', sy.err(), zext(e, 8, 32))
    add('descriptors', 'F_GETFL', f)

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); fl = wide(x, 'fl'); e = sy.on('fd_fdstat_set_flags'); r = x.call('fcntl:fcntl', fd, 4, *va_(x, [fl]))
        result(x, sy, 'F_SETFL', r, e, 0); match(x, 'F_SETFL', sy.log[0][1], [fd, mkbits(bits(fl, 32)[:12] + (0,) * 20)])
    add('descriptors', 'F_SETFL', f)

    def f(x):
        sy = Sys(x); k = x.conc(x.sym('cmd', 8, (0, 1, 2, 5, 9))); r = x.call('fcntl:fcntl', 4, k, *va_(x, [0]))
        x.expect('fcntl %d' % k, r, {1: 1, 2: 0}.get(k, M(32)))
        if k not in (1, 2): x.expect('errno', sy.err(), EINVAL)
    add('descriptors', 'F_other', f)
    for fn, imp in (('posix_fadvise', 'fd_advise'), ('posix_fallocate', 'fd_allocate')):
        def f(x, fn=fn, imp=imp):
            sy = Sys(x); fd = wide(x, 'fd'); o = wide(x, 'o', 64); n = wide(x, 'n', 64); e = sy.on(imp); ad = x.sym('ad', 8, range(6))
            r = x.call('fcntl:' + fn, fd, o, n, *([zext(ad, 8, 32)] if fn == 'posix_fadvise' else []))
            if has(x, o, 1 << 63) or has(x, n, 1 << 63):
                x.expect(fn + ' of a negative range', r, EINVAL)
                if sy.log: raise Bad(fn + ' of a negative range calls the system')
                return
            x.expect(fn, r, zext(e, 8, 32)); match(x, fn, sy.log[0][1], [fd, (o, 64), (n, 64)] + ([zext(ad, 8, 32)] if fn == 'posix_fadvise' else []))
        add('descriptors', fn, f)
    # ---- status
    MODE = {0: 0, 1: 0x6000, 2: 0x2000, 3: 0x4000, 4: 0x8000, 5: 0xc000, 6: 0xc000, 7: 0xa000}

    def fst(x):
        v = dict(dev=wide(x, 'dev', 64), ino=wide(x, 'ino', 64), nlink=wide(x, 'nl', 64), size=wide(x, 'sz', 64)); ft = x.sym('type', 8, range(8))
        ts = [binop('add', 64, zext(x.sym('t%d' % i, 8), 8, 64), b) for i, b in enumerate((999999900, 1700000000999999990, 0))]

        def fill(i):
            def g(r, a):
                p = a[i]; r.addr(p, 64, True)
                for j in range(64): r.mem.write(p + j, 1, 0)
                r.mem.write(p, 8, v['dev']); r.mem.write(p + 8, 8, v['ino']); r.mem.write(p + 16, 1, ft); r.mem.write(p + 24, 8, v['nlink']); r.mem.write(p + 32, 8, v['size'])
                for j in range(3): r.mem.write(p + 40 + 8 * j, 8, ts[j])
            return g

        def check(p, what):
            for o, k in ((0, 'dev'), (8, 'ino'), (16, 'nlink'), (32, 'size')): x.expect('%s: st_%s' % (what, k), x.read(p + o, 8), v[k], 64)
            x.test(what + ': st_mode', lambda m, t: m == MODE[t], x.read(p + 24, 4), ft)
            for j, k in enumerate(('atime', 'mtime', 'ctime')):
                x.test('%s: st_%s' % (what, k), lambda g, t: g == t // 10**9, x.read(p + 40 + 8 * j, 8), ts[j]); x.test('%s: st_%s_ns' % (what, k), lambda g, t: g == t % 10**9, x.read(p + 64 + 4 * j, 4), ts[j])
        return fill, check

    def f(x):
        sy = Sys(x); fd = wide(x, 'fd'); fill, check = fst(x); e = sy.on('fd_filestat_get', fill=fill(1)); p = x.obj([0xAA] * 80); r = x.call('stat:fstat', fd, p)
        if result(x, sy, 'fstat', r, e, 0): check(p, 'fstat')
        match(x, 'fstat', sy.log[0][1], [fd, None])
    add('status', 'fstat', f)
    for fn in ('stat', 'lstat', 'fstatat'):
        for fl in ((0, 1) if fn == 'fstatat' else (0,)):
            def f(x, fn=fn, fl=fl):
                sy = Sys(x); fill, check = fst(x); e = sy.on('path_filestat_get', look=path(2, 3), fill=fill(4)); p = x.obj([0xAA] * 80); s = name(x, 'p', 2); q = x.obj(s + [0])
                r = x.call('stat:' + fn, *([wide(x, 'fd'), q, p, fl] if fn == 'fstatat' else [q, p]))
                match(x, fn, sy.log[0][1], [wide(x, 'fd') if fn == 'fstatat' else 3, 0 if fn == 'lstat' or fl else 1, None, None, None]); same(x, 'the path', sy.log[0][2], s)
                if result(x, sy, fn, r, e, 0): check(p, fn)
            add('status', '%s_%d' % (fn, fl), f)
    # ---- paths
    def name(x, n, k): return [x.sym('%s%d' % (n, i), 8, range(97, 123)) for i in range(k)]
    for mod, fn, imp, at in (('unistd', 'unlink', 'path_unlink_file', 0), ('unistd', 'rmdir', 'path_remove_directory', 0), ('stat', 'mkdir', 'path_create_directory', 0), ('unistd', 'unlinkat', 'path_unlink_file', 1), ('unistd', 'unlinkat', 'path_remove_directory', 2),
                             ('unistd', 'rmdirat', 'path_remove_directory', 1), ('stat', 'mkdirat', 'path_create_directory', 1)):
        def f(x, mod=mod, fn=fn, imp=imp, at=at):
            sy = Sys(x); s = name(x, 'p', 3); q = x.obj(s + [0]); e = sy.on(imp, look=path(1, 2)); fd = wide(x, 'fd')
            a = ([fd] if at else []) + [q] + ([0o700] if 'mkdir' in fn else []) + ([4 if at == 2 else 0] if fn == 'unlinkat' else [])
            r = x.call('%s:%s' % (mod, fn), *a); result(x, sy, fn, r, e, 0); match(x, fn, sy.log[0][1], [fd if at else 3, None, 3]); same(x, 'the path', sy.log[0][2], s)
        add('paths', '%s_%d' % (fn, at), f)
    for mod, fn, imp, at in (('unistd', 'link', 'path_link', 0), ('unistd', 'linkat', 'path_link', 1), ('unistd', 'linkat', 'path_link', 2), ('stdio', 'rename', 'path_rename', 0), ('stdio', 'renameat', 'path_rename', 1)):
        def f(x, mod=mod, fn=fn, imp=imp, at=at):
            sy = Sys(x); s = name(x, 'p', 2); t = name(x, 'q', 3); q = x.obj(s + [0]); u = x.obj(t + [0]); L = imp == 'path_link'; i = 1 if L else 0
            e = sy.on(imp, look=lambda r, a: (path(1 + i, 2 + i)(r, a), path(4 + i, 5 + i)(r, a))); f1 = wide(x, 'f'); f2 = wide(x, 'g')
            a = [f1, q, f2, u] if at else [q, u]
            if fn == 'linkat': a.append(2 if at == 2 else 0)
            r = x.call('%s:%s' % (mod, fn), *a); result(x, sy, fn, r, e, 0)
            match(x, fn, sy.log[0][1], [f1 if at else 3] + ([1 if at == 2 else 0] if L else []) + [None, 2, f2 if at else 3, None, 3]); same(x, 'the old path', sy.log[0][2][0], s); same(x, 'the new path', sy.log[0][2][1], t)
        add('paths', '%s_%d' % (fn, at), f)
    for at in (0, 1):
        def f(x, at=at):
            sy = Sys(x); s = name(x, 'p', 2); t = name(x, 'q', 3); q = x.obj(s + [0]); u = x.obj(t + [0]); fd = wide(x, 'f')
            e = sy.on('path_symlink', look=lambda r, a: (path(0, 1)(r, a), path(3, 4)(r, a)))
            r = x.call('unistd:symlinkat', q, fd, u) if at else x.call('unistd:symlink', q, u); result(x, sy, 'symlink', r, e, 0)
            match(x, 'symlink', sy.log[0][1], [None, 2, fd if at else 3, None, 3]); same(x, 'the contents', sy.log[0][2][0], s); same(x, 'the path', sy.log[0][2][1], t)
        add('paths', 'symlink_%d' % at, f)

        def f(x, at=at):
            sy = Sys(x); s = name(x, 'p', 2); q = x.obj(s + [0]); fd = wide(x, 'f'); b = wide(x, 'b'); n = wide(x, 'n'); k = wide(x, 'k')
            e = sy.on('path_readlink', [(5, 4, k)], path(1, 2)); r = x.call('unistd:readlinkat', fd, q, b, n) if at else x.call('unistd:readlink', q, b, n); result(x, sy, 'readlink', r, e, k)
            match(x, 'readlink', sy.log[0][1], [fd if at else 3, None, 2, b, n, None]); same(x, 'the path', sy.log[0][2], s)
        add('paths', 'readlink_%d' % at, f)

    def f(x):
        sy = Sys(x); s = name(x, 'p', 2); q = x.obj(s + [0]); e1 = sy.on('path_unlink_file', look=path(1, 2)); e2 = sy.on('path_remove_directory', look=path(1, 2)); r = x.call('stdio:remove', q)
        for l in sy.log: match(x, 'remove', l[1], [3, None, 2]); same(x, 'the path', l[2], s)
        k = x.case(lambda e: 0 if e == 0 else 2 if e in (EISDIR, ENOTCAPABLE) else 1, e1)
        if [l[0] for l in sy.log] != ['path_unlink_file', 'path_remove_directory'][:1 + (k == 2)]: raise Bad('system calls of remove%s' % x.given(x.c.some() or {}), k, str([l[0] for l in sy.log]))
        if k == 0: x.expect('remove', r, 0)
        elif k == 1: x.expect('remove', r, M(32)); x.expect('errno', sy.err(), zext(e1, 8, 32))
        elif x.case(lambda e: e == 0, e2): x.expect('remove', r, 0)
        else: x.expect('remove', r, M(32)); x.test('errno of remove', lambda g, e: g == {ENOTDIR: ENOTCAPABLE}.get(e, e), sy.err(), e2)
    add('paths', 'remove', f)
    for fn in ('access', 'faccessat'):
        for am in (0, 1, 2, 3, 4, 6, 7, 8):
            def f(x, fn=fn, am=am):
                sy = Sys(x); s = name(x, 'p', 2); q = x.obj(s + [0]); ft = x.sym('type', 8, range(8)); q_ = x.sym('r', 8, range(16)); inh = mkbits(tuple((q_, {1: 0, 6: 1, 14: 2}[i]) if i in (1, 6, 14) else (q_, 3) if i % 3 == 0 else 1 for i in range(32))); fd = wide(x, 'f') if fn == 'faccessat' else 3
                e1 = sy.on('path_filestat_get', look=path(2, 3), fill=lambda r, a: (r.addr(a[4], 64, True), [r.mem.write(a[4] + i, 8, 0) for i in range(0, 64, 8)], r.mem.write(a[4] + 16, 1, ft)))
                e2 = sy.on('fd_fdstat_get', fill=stat(3, 0, 0, zext(inh, 32, 64))); r = x.call('unistd:' + fn, *([fd, q, am, 0] if fn == 'faccessat' else [q, am]))
                if am > 7:
                    x.expect(fn, r, M(32)); x.expect('errno', sy.err(), EINVAL); return
                match(x, fn, sy.log[0][1], [fd, 1, None, 2, None]); same(x, 'the path', sy.log[0][2], s)
                if not x.case(lambda e: e == 0, e1): x.expect(fn, r, M(32)); x.expect('errno', sy.err(), zext(e1, 8, 32)); return
                if am == 0: x.expect(fn, r, 0); return
                match(x, fn, sy.log[1][1], [fd, None])
                if not x.case(lambda e: e == 0, e2): x.expect(fn, r, M(32)); x.expect('errno', sy.err(), zext(e2, 8, 32)); return
                need = [m for m, on in ((0x4000 if x.case(lambda t: t == 3, ft) else 2, am & 4), (0x40, am & 2)) if on]
                if all(has(x, inh, m) for m in need): x.expect(fn + ' of what may be accessed', r, 0)
                else: x.expect(fn + ' of what may not be accessed', r, M(32)); x.expect('errno', sy.err(), EACCES)
            add('paths', '%s_%d' % (fn, am), f)
    # ---- opening
    ALL = M(29)
    for at in (0, 1):
        for acc in (0x04000000, 0x10000000, 0x14000000, 0x08000000, 0x02000000):
            for nf in (0, 0x01000000):
                def f(x, at=at, acc=acc, nf=nf):
                    sy = Sys(x); s = name(x, 'p', 2); q = x.obj(s + [0]); fd = wide(x, 'f') if at else 3; inh = wide(x, 'i', 64); fl = x.sym('fl', 8, range(32)); of = x.sym('of', 8, range(16)); k = wide(x, 'k')
                    e1 = sy.on('fd_fdstat_get', fill=stat(3, 0, wide(x, 'b', 64), inh)); e2 = sy.on('path_open', [(8, 4, k)], path(2, 3))
                    o = mkbits(bits(fl, 8)[:5] + (0,) * 7 + bits(of, 8)[:4] + (0,) * 16); o = binop('or', 32, o, acc | nf)
                    r = x.call('fcntl:openat', fd, q, o) if at else x.call('fcntl:open', q, o)
                    match(x, 'open', sy.log[0][1], [fd, None])
                    if not x.case(lambda e: e == 0, e1): x.expect('open', r, M(32)); x.expect('errno', sy.err(), zext(e1, 8, 32)); return
                    R = FDR['read'] | FDR['readdir'] if acc & 0x04000000 else 0; Wr = FDR['datasync'] | FDR['write'] | FDR['allocate'] | FDR['setsize'] if acc & 0x10000000 else 0
                    deny = (FDR['read'] | FDR['readdir'] | FDR['datasync'] | FDR['write'] | FDR['allocate'] | FDR['setsize']) & ~(R | Wr)
                    base = mkbits(tuple(0 if deny >> i & 1 else b for i, b in enumerate(bits(inh, 64))))
                    match(x, 'open', sy.log[1][1], [fd, 0 if nf else 1, None, 2, zext(of, 8, 32), (base, 64), (inh, 64), zext(fl, 8, 32), None]); same(x, 'the path', sy.log[1][2], s)
                    if x.case(lambda e: e == 0, e2): x.expect('open', r, k)
                    else: x.expect('open', r, M(32)); x.expect('errno', sy.err(), zext(e2, 8, 32))
                add('opening', 'open_%d_%x_%x' % (at, acc, nf), f)
    for mode in ('r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'ab', 'rb+', 'r+b', 'w+b', 'wb+', 'ab+', 'wx', 'w+x', 'wbx', 'wxb', 'b', '', 'z'):
        for fn in ('fopen', 'freopen'):
            def f(x, mode=mode, fn=fn):
                sy = Sys(x); s = name(x, 'p', 2); q = x.obj(s + [0]); inh = M(30); k = 9
                x.r.hooks[P + 'fd_seek'] = lambda r, *a: (sy.log.append(('fd_seek', a, None)), r.addr(a[3], 8, True), r.mem.write(a[3], 8, 77), 0)[3]
                e2 = sy.on('path_open', [(8, 4, k)], path(2, 3)); x.r.hooks[P + 'fd_fdstat_get'] = lambda r, fd, p: (stat(4, 0, 0, inh)(r, (fd, p)), 0)[1]
                x.r.hooks[P + 'fd_close'] = lambda r, fd: (sy.log.append(('fd_close', (fd,), None)), 0)[1]
                if fn == 'freopen':
                    d = x.r.img.data['$stdio:_iob']; old = d.addr + d.size // 20; r = x.conc(x.call('stdio:freopen', q, x.cstr(mode), old))
                    if not sy.log or sy.log[0][:2] != ('fd_close', (1,)): raise Bad('freopen does not close the stream first', None, str(sy.log[:1]))
                    sy.log.pop(0)
                else: r = x.conc(x.call('stdio:fopen', q, x.cstr(mode)))
                if mode[:1] not in ('r', 'w', 'a'):
                    if r or sy.log: raise Bad('%s in mode "%s" opens something' % (fn, mode))
                    return
                plus = '+' in mode; m = mode[0]; R = m == 'r' or plus; Wr = m != 'r' or plus
                of = 0 if m == 'r' else 1 | (8 if m == 'w' else 0) | (4 if 'x' in mode else 0); fl = 1 if m == 'a' else 0
                base = inh & ~(0 if R else 0x4002) & ~(0 if Wr else 1 | 0x40 | 0x100 | 0x400000)
                match(x, '%s "%s"' % (fn, mode), sy.log[0][1], [3, 1, None, 2, of, (base, 64), (inh, 64), fl, None]); same(x, 'the path', sy.log[0][2], s)
                if not x.case(lambda e: e == 0, e2): x.expect(fn + ' after an error', r, 0); x.expect('errno', sy.err(), zext(e2, 8, 32)); return
                if not r: raise Bad('%s in mode "%s" fails' % (fn, mode))
                if fn == 'freopen' and r != old: raise Bad('freopen returns another stream')
                # what may be done with the stream
                del sy.log[:]; rd = []; wr = []
                x.r.hooks[P + 'fd_read'] = lambda r, fd, v, n, pn: (rd.append(fd), r.mem.write(r.addr(pn, 4, True), 4, 0), 0)[2]
                x.r.hooks[P + 'fd_write'] = lambda r, fd, v, n, pn: (wr.append(fd), r.mem.write(r.addr(pn, 4, True), 4, r.mem.read(v + 4, 4)), 0)[2]
                g = x.call('stdio:fgetc', r); x.expect('fgetc at the end', g, M(32))
                if bool(rd) != R or any(fd != k for fd in rd): raise Bad('reading a stream of mode "%s"' % mode, R, str(rd))
                if fn == 'fopen': x.call('stdio:fseek', r, 0, 0)
                t = x.call('stdio:fputc', 65, r)
                x.expect('fputc', t, 65 if Wr else M(32))
                if x.conc(x.call('stdio:fflush', r)) and Wr: raise Bad('fflush fails')
                if bool(wr) != Wr or any(fd != k for fd in wr): raise Bad('writing a stream of mode "%s"' % mode, Wr, str(wr))
            add('opening', '%s_%s' % (fn, mode), f)
    # ---- preopened directories
    for pre in (('/',), ('.',), ('/a',), ('/a', '/'), ('/', '/a'), ('/a', '/a/b'), ('/a/b', '/a'), ('/ab', '/a', '/b'), ('.', '/a'), ('/a', '/a'), ('/b', '/a/a', '/a', '/', '/b/a'), ('/c0', '/c1', '/c2', '/c3', '/a', '/c4', '/c5', '/c6', '/ab', '/'), ()):
        for n in (1, 2, 3, 4, 5):
            for lead in ('', '/', 'a', '/a', '/ab'):
                if len(lead) >= n or n - len(lead) > 3: continue

                def f(x, pre=pre, n=n, lead=lead):
                    sy = Sys(x, [(p, 3 + i) for i, p in enumerate(pre)]); u = list(lead.encode()) + [x.sym('p%d' % i, 8, b'/ab.') for i in range(n - len(lead))]; q = x.obj(u + [0]); k = 40
                    sy.on('path_unlink_file', look=path(1, 2), fail=False); r = x.call('unistd:unlink', q)
                    s = ''.join(chr(x.conc(t)) for t in u).lstrip('/'); best = None
                    for i, p in enumerate(pre):
                        p = {'/': '', '.': ''}.get(p, p.lstrip('/'))
                        if p == '' or s == p or s.startswith(p + '/'):
                            if best is None or len(p) >= best[0]: best = len(p), 3 + i, s[len(p):].lstrip('/') or '.'
                    if sy.asked != list(range(3, 4 + len(pre))): raise Bad('preopened descriptors asked for', str(list(range(3, 4 + len(pre)))), str(sy.asked))
                    if best is None:
                        x.expect('unlink of a path under no directory', r, M(32)); x.expect('errno', sy.err(), ENOTCAPABLE)
                        if sy.log: raise Bad('a path under no directory is passed to the system%s' % x.given(x.c.some() or {}))
                        return
                    if not sy.log: raise Bad('path %r is under no directory of %r' % (s, pre), best[1], None)
                    got = ''.join(chr(x.conc(t)) for t in sy.log[0][2])
                    if x.conc(sy.log[0][1][0]) != best[1] or got != best[2]: raise Bad('path %r under the directories %s' % (s, pre), '%d %r' % best[1:], '%d %r' % (x.conc(sy.log[0][1][0]), got))
                    x.call('unistd:unlink', q)
                    if len(sy.asked) != 1 + len(pre): raise Bad('the preopened directories are asked for again')
                add('preopens', '%s_%d_%s' % (':'.join(pre), n, lead), f)
    # ---- directories
    def directory(x, names, extra=(), fail=None):
        """a directory with these entries (lists of characters)"""
        sy = Sys(x); sy.ino = [wide(x, 'i%d_' % i, 16) for i in range(len(names))]; sy.ty = [x.sym('t%d' % i, 8, range(8)) for i in range(len(names))]; sy.reads = 0; sy.closed = []
        ent = []
        for i, s in enumerate(names):
            ent.append([(i + 1) * 7 >> 8 * j & 255 for j in range(8)] + [mkbits(bits(sy.ino[i], 16)[:8]), mkbits(bits(sy.ino[i], 16)[8:])] + [0] * 6 + [len(s) & 255, len(s) >> 8, 0, 0] + [sy.ty[i], 0, 0, 0] + list(s))

        def rd(r, fd, buf, n, cookie, pn):
            sy.reads += 1
            if fail == sy.reads: return 29
            c = r.c.conc(cookie)
            if c % 7 or c > 7 * len(ent): raise Bad('cookie passed to the system', None, c)
            n = r.c.conc(n); b = [q for e in ent[c // 7:] for q in e][:n]
            for i in range(n): r.addr(buf + i, 1, True)
            for i, q in enumerate(b): r.mem.write(buf + i, 1, q)
            r.addr(pn, 4, True); r.mem.write(pn, 4, len(b)); return 0
        x.r.hooks[P + 'fd_readdir'] = rd
        x.r.hooks[P + 'fd_close'] = lambda r, fd: (sy.closed.append(r.c.conc(fd)), 0)[1]
        x.r.hooks[P + 'fd_fdstat_get'] = lambda r, fd, p: (stat(3, 0, M(30), M(30))(r, (fd, p)), 0)[1]
        sy.on('path_open', [(8, 4, 9)], path(2, 3), fail=False)
        return sy

    def entry(x, sy, p, i, s):
        x.expect('d_ino of entry %d' % i, x.read(p, 8), zext(sy.ino[i], 16, 64), 64); x.expect('d_type of entry %d' % i, x.read(p + 8, 1), sy.ty[i], 8)
        for j, c in enumerate(list(s) + [0]): x.expect('character %d of the name of entry %d' % (j, i), x.read(p + 9 + j, 1), c, 8)

    def nm(x, i, k): return [x.sym('n%d_%d' % (i, j), 8, range(1, 256)) if j < 2 else 97 + j % 26 for j in range(k)]
    for lens in ((), (1,), (2, 1), (8, 9, 10), (255,) * 20, (3,) * 160, (4096 - 24,), (4095 - 24, 3), (4096 - 24, 3), (4097 - 24, 3), (2048 - 24, 2048 - 24, 5), (2048 - 24, 2048 - 24), (2048 - 24, 2047 - 24, 30), (5000, 3), (3, 5000, 9000, 3), (4060, 1, 1), (4030, 20, 1), (4050, 1)):
        def f(x, lens=lens):
            names = [nm(x, i, k) for i, k in enumerate(lens)]; sy = directory(x, names); d = x.conc(x.call('dirent:opendir', x.cstr('d')))
            if not d: raise Bad('opendir fails')
            match(x, 'opendir', sy.log[0][1], [3, 1, None, 1, 2, None, None, 4, None]); pos = []
            x.expect('dirfd', x.call('dirent:dirfd', d), 9)
            for i, s in enumerate(names):
                pos.append(x.conc(x.call('dirent:telldir', d)))
                e = x.conc(x.call('dirent:readdir', d))
                if not e: raise Bad('only %d of %d entries are read' % (i, len(names)), len(names), i)
                entry(x, sy, e, i, s)
            for _ in range(2): x.expect('readdir at the end', x.call('dirent:readdir', d), 0)
            for i in ([0, len(names) - 1] if names else []):
                x.call('dirent:seekdir', d, pos[i]); e = x.conc(x.call('dirent:readdir', d))
                if not e: raise Bad('nothing is read after seekdir')
                entry(x, sy, e, i, names[i])
            x.call('dirent:rewinddir', d); e = x.conc(x.call('dirent:readdir', d))
            if names:
                if not e: raise Bad('nothing is read after rewinddir')
                entry(x, sy, e, 0, names[0])
            x.expect('closedir', x.call('dirent:closedir', d), 0)
            if sy.closed != [9]: raise Bad('closedir closes', 9, str(sy.closed))
        add('directories', 'readdir_' + '.'.join(map(str, lens[:4])) + '_%d' % len(lens), f)

        def f(x, lens=lens):
            if len(lens) > 30: lens = lens[:30]
            names = [nm(x, i, k) for i, k in enumerate(lens)]; sy = directory(x, names); sel = [x.case(lambda c: c > 128, s[0]) for s in names[:3]] + [True] * max(0, len(names) - 3); seen = []; p = x.obj([0xAA] * 4)

            def pick(r, e):
                i = len(seen); seen.append(e); entry(x, sy, e, i, names[i]); return int(sel[i])

            def later(r, a, b):
                i, j = [kept.index(r.mem.read(q, 4)) for q in (a, b)]; return (j > i) - (j < i) & M(32)       # reverse order
            kept = []
            x.r.hooks[0x6000] = pick
            def cmp(r, a, b):
                if not kept: kept.extend(e for e, s in zip(seen, sel) if s)
                return later(r, a, b)
            x.r.hooks[0x6001] = cmp
            n = x.conc(x.call('dirent:scandir', x.cstr('d'), p, 0x6000, 0x6001)); want = [i for i in range(len(names)) if sel[i]][::-1]
            if sx(n, 32) != len(want): raise Bad('scandir counts', len(want), sx(n, 32))
            l = x.conc(x.read(p, 4))
            for j, i in enumerate(want): entry(x, sy, x.conc(x.read(l + 4 * j, 4)), i, names[i])
            if sy.closed != [9]: raise Bad('scandir closes', 9, str(sy.closed))
        add('directories', 'scandir_' + '.'.join(map(str, lens[:4])) + '_%d' % len(lens), f)
    for k in (1, 2):
        for fn in ('readdir', 'scandir'):
            def f(x, k=k, fn=fn):
                names = [nm(x, i, 250) for i in range(20)]; sy = directory(x, names, fail=k); p = x.obj([0xAA] * 4)
                if fn == 'scandir':
                    x.r.hooks[0x6001] = lambda r, a, b: 0
                    x.expect('scandir after an error', x.call('dirent:scandir', x.cstr('d'), p, 0, 0x6001), M(32)); x.expect('errno', sy.err(), 29)
                    if sy.closed != [9]: raise Bad('scandir closes', 9, str(sy.closed))
                    return
                d = x.conc(x.call('dirent:opendir', x.cstr('d')))
                if k == 1:
                    if d: raise Bad('opendir succeeds although the directory cannot be read')
                    x.expect('errno', sy.err(), 29)
                    if sy.closed != [9]: raise Bad('opendir closes', 9, str(sy.closed))
                    return
                i = 0
                while True:
                    e = x.conc(x.call('dirent:readdir', d))
                    if not e: break
                    entry(x, sy, e, i, names[i]); i += 1
                if i != 4096 // 274: raise Bad('entries before the error', 4096 // 274, i)
                x.expect('errno', sy.err(), 29)
                while True:
                    e = x.conc(x.call('dirent:readdir', d))
                    if not e: break
                    entry(x, sy, e, i, names[i]); i += 1
                if i != 20: raise Bad('entries after the error', 20, i)
            add('directories', '%s_error_%d' % (fn, k), f)

    def f(x):
        n = 3; a = nm(x, 0, n) + [0]; b = nm(x, 1, n) + [0]; P_ = [x.obj([0] * 9 + s) for s in (a, b)]; c = [x.words([p]) for p in P_]
        r = x.call('dirent:alphasort', *c); e = 0
        for p, q in zip(a, b):
            e = x.case(lambda p, q: (p > q) - (p < q), p, q)
            if e: break
        x.test('alphasort', lambda r: (sx(r, 32) > 0) - (sx(r, 32) < 0) == e, r)
    add('directories', 'alphasort', f)
    return out


def va_(x, vals):
    from c37 import va
    return [va(x, [(v, 4) for v in vals])]


def task(c, it):
    rule, key, sc = it
    judge(c, rule, key, sc, {'descriptors': 'lib/src/unistd.c, fcntl.c', 'status': 'lib/src/stat.c', 'paths': 'lib/src/unistd.c', 'opening': 'lib/src/fcntl.c, stdio.c', 'preopens': 'lib/src/fcntl.c:find_relpath', 'directories': 'lib/src/dirent.c'}[rule], maxclasses=6000)


def run(c):
    image()
    l = scenarios(c.tier == 'thorough')
    c.pmap(l, task)
    by = {}
    for r, k, s in l: by[r] = by.get(r, 0) + 1
    for r, n in by.items(): c.need(r, n)
