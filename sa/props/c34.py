"""Optimisation levels: functions drawn from every construct the other checks cover, and functions made to contain the
instruction sequences the peephole pass rewrites, are compiled by the analysed compiler at -O0, -O1, -O2, -O3 and -O9 (samples of the families per level in the quick tier);
for unknown operands and memory the code of every level must have the meaning C gives the source."""
from emit import *
import cc, c07, c31, c32, c33
LEVEL = 'other'
V = Var


def K(*a): return '_'.join(str(x) for x in a).replace(' ', '.')


def fn(key, ret, params, *stmts, **k):
    f = Fun('f', ret, params, list(stmts), **k); f.key = key
    return f


def I(n): return Lit(n, INT)


OFFS = [0, 1, 2, 3, 100, 16384, 1 << 20, -1, -2, -100]


def special():
    """what the pass looks for: folding of offsets and constant products, set/get pairs, dropped values, extensions"""
    p, q, i, j, a, b, x, y = map(V, 'pqijabxy')
    for t in SCALARS + [ptr(CHAR)]:
        T = lambda *k: K('load', t, *k)
        for n in OFFS:
            yield 'offset', fn(T(n), t, [('p', ptr(t))], Return_(Index(p, I(n))))
            yield 'offset', fn(K('store', t, n), VOID, [('p', ptr(t)), ('a', t)], Ex(Assign('=', Index(p, I(n)), a)))
        for n, m in ((1, 2), (0, 0), (3, -3), (-3, 3), (-1, -1), (5, -7)):
            yield 'offset', fn(T(n, m), t, [('p', ptr(t))], Return_(Index(Bin('+', p, I(n)), I(m))))
            yield 'offset', fn(T('index', n, m), t, [('p', ptr(t)), ('i', INT)], Return_(Index(p, Bin('+', Bin('+', i, I(n)), I(m)))))
            yield 'offset', fn(T('outer', n, m), t, [('p', ptr(t)), ('i', INT)], Return_(Index(Bin('+', Bin('+', p, I(n)), i), I(m))))
        yield 'offset', fn(T('pointer.in.memory'), t, [('p', ptr(ptr(t)))], Return_(Index(Index(p, I(3)), I(2))))
        yield 'drop', fn(K(t, 'local'), t, [('a', t), ('b', t)], Ex(a), Ex(b), Ex(Assign('=', a, b)), Ex(a), Return_(a))
        yield 'drop', fn(K(t, 'load'), t, [('p', ptr(t)), ('i', INT)], Ex(Star(p)), Ex(Index(p, i)), Ex(Index(p, IncDec('++', i, 1))), Return_(Index(p, i)))
        yield 'drop', fn(K(t, 'call'), t, [('p', ptr(t)), ('i', INT)], Ex(Index(p, Call('g', [INT], INT, [i]))), Ex(Bin(',', Star(p), Call('g', [INT], INT, [i]))), Return_(Star(p)))
        if t.arith():
            yield 'drop', fn(K(t, 'increment'), t, [('a', t)], Ex(IncDec('++', a, 1)), Ex(IncDec('--', a, 0)), Ex(IncDec('++', a, 1)), Return_(a))
            yield 'setget', fn(K(t, 'converted'), DOUBLE, [('a', t), ('b', t)], Ex(Assign('=', x, a)), Ex(Assign('=', y, x)), Ex(Assign('=', x, b)), Return_(Cast(DOUBLE, Bin('-', y, x))), locals=[('x', t, None), ('y', t, None)])
        yield 'setget', fn(K(t), t, [('a', t), ('b', t), ('i', INT)], Ex(Assign('=', x, a)), Ex(Assign('=', y, x)), Ex(Assign('=', x, b)), If(i, Return_(x)), Return_(y), locals=[('x', t, None), ('y', t, None)])
        yield 'setget', fn(K(t, 'loop'), t, [('p', ptr(t)), ('i', INT)], Loop('while', IncDec('--', i, 1), Block(Ex(Assign('=', x, y)), Ex(Assign('=', y, Star(IncDec('++', p, 1)))))), Return_(x), locals=[('x', t, Cast(t, I(1))), ('y', t, Cast(t, I(2)))])
        yield 'setget', fn(K(t, 'arm'), t, [('a', t), ('b', t), ('i', INT)], If(i, Ex(Assign('=', x, a)), Ex(Assign('=', x, b))), Ex(Assign('=', y, x)), Return_(y), locals=[('x', t, None), ('y', t, None)])
    for n, m in ((3, 4), (-3, 4), (-3, -4), (65536, 65536), (2147483647, 2), (-2147483647, 3), (100000, 100000), (0, 7), (1, -1)):
        yield 'product', fn(K(n, m), INT, [], Return_(Bin('*', I(n), I(m))))
        yield 'product', fn(K(n, m, 'wide'), LLONG, [], Return_(Cast(LLONG, Bin('*', I(n), I(m)))))
        yield 'product', fn(K(n, m, 'added'), INT, [('a', INT)], Return_(Bin('+', a, Bin('*', I(n), I(m)))))
        yield 'product', fn(K(n, m, 'unsigned'), LLONG, [], Return_(Cast(LLONG, Bin('*', Cast(UINT, I(n)), Cast(UINT, I(m))))))
        if abs(n * m) < 1000: yield 'product', fn(K(n, m, 'index'), INT, [('p', ptr(INT))], Return_(Index(p, Bin('*', I(n), I(m)))))
        yield 'product', fn(K(n, m, 'thrice'), INT, [('a', INT)], Return_(Bin('*', a, Bin('*', I(n), Bin('*', I(m), I(5))))))
        yield 'product', fn(K(n, m, 'by.three'), INT, [('a', INT)], Return_(Bin('*', Bin('*', a, I(n)), I(m))))
    for op in '+-*':
        for n in (0, 1, -1):
            for w in (INT, UINT, LLONG, DOUBLE):
                yield 'identity', fn(K(w, op, n), w, [('a', w)], Return_(Bin(op, a, Cast(w, I(n)))))
                yield 'identity', fn(K(w, n, op), w, [('a', w)], Return_(Bin(op, Cast(w, I(n)), a)))
    for t in (CHAR, UCHAR, SHORT, USHORT, BOOL):
        for s in (CHAR, UCHAR, SHORT, USHORT, INT, LLONG):
            yield 'extension', fn(K(t, s), INT, [('a', LLONG)], Return_(Cast(INT, Cast(t, Cast(s, a)))))
            yield 'extension', fn(K(t, s, 'memory'), LLONG, [('p', ptr(s))], Return_(Cast(LLONG, Cast(t, Star(p)))))
            yield 'extension', fn(K(t, s, 'twice'), INT, [('p', ptr(s))], Return_(Cast(INT, Cast(t, Cast(s, Cast(t, Index(p, I(2))))))))
            yield 'extension', fn(K(t, s, 'store'), t, [('p', ptr(t)), ('a', s)], Return_(Assign('=', Star(p), Cast(t, a))))


HS = HEAD + 'int g(int a);\n'


def families(tier):
    th = tier == 'thorough'
    q = lambda g, k: list(g) if th else list(g)[::k]
    l = [('special', r, f) for r, f in special()]
    l07 = [(A, r, f) for A, fs in c07.groups('quick') for r, f in fs]
    l += [(('c07', A), r, f) for A, r, f in q(l07, 16)]
    l += [('c31', r, f) for r, f in q(list(c31.nests('quick')) + list(c31.bare()) + list(c31.switches()), 9)]
    l += [('c32', r, f) for r, f in q([x for g in (lambda: c32.arguments(False), c32.indirect, c32.variadic, c32.structs, c32.params_) for x in g()], 14)]
    c33.QUICK[0] = True
    l += [('c33', r, f) for r, f in q(c33.everything('quick'), 14)]
    return l


def task(c, it):
    lv, fam, l = it
    cc.level(lv)
    rules = {}
    for i, (r, f) in enumerate(l):
        f.name = 'z%d' % i; f.key = 'O%d_%s_%s' % (lv, r, f.key)
        rules.setdefault(r, []).append(f)
    for r, fs in rules.items():
        if fam == 'special': judge(c, 'special', fs, HS, {'$x:g': sigof([INT], INT)}, rets={'g': INT})
        elif fam[0] == 'c07':
            A = fam[1]
            judge(c, 'operators', fs, HEAD + '%s; %s;\n' % (A.decl('g(%s)' % A.name), A.decl('h(%s)' % A.name)), {'$x:g': sigof([A], A), '$x:h': sigof([A], A)}, rets={'g': A, 'h': A})
        elif fam == 'c31': judge(c, 'statements', fs, c31.HD, c31.SG, rets={'g': INT, 'h': INT}, maxclasses=400, maxloop=2)
        elif fam == 'c32': judge(c, 'calls', fs, c32.HD, c32.SG, rets=c32.RETS, variadic=c32.VARIADIC)
        else: judge(c, 'objects', fs, c33.HD, c33.SG, rets={'q': INT})
    c.seen('levels', '-O%d' % lv)


def run(c):
    import copy
    cc.level(0); engine_for()
    for lv in (1, 2, 3, 9): cc.level(lv); engine_for()
    by = {}
    for fam, r, f in families(c.tier): by.setdefault(fam, []).append((r, f))
    items = []
    for lv, k in ((0, 6), (1, 2), (2, 4), (3, 3), (9, 8)):
        for fam, l in by.items():
            if c.tier != 'thorough':
                if lv in (3, 9) and fam != 'special': continue    # the other checks run at 3
                l = l[lv % k::k] if fam == 'special' else l[lv % 2::2] if lv == 2 else l
            n = 120 if fam == 'special' else 40
            for i in range(0, len(l), n): items.append((lv, fam, l[i:i + n]))
    c.pmap(items, task)
    for r, n in (('special', 1200), ('operators', 250), ('statements', 150), ('calls', 80), ('objects', 180)): c.need(r, n)
