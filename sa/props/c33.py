"""Memory objects: members of structures and unions, array elements, nested aggregates, globals, address-taken locals and
parameters, pointer arithmetic, differences and comparisons for all element and index types, and aggregate assignment.
Offsets and element sizes are computed here from the C layout rules for WCPL's data model; the emitted loads, stores and
address computations must agree for unknown pointers, indices and contents.  Objects in the stack frame must lie inside
it, aligned and apart."""
from emit import *
import random
LEVEL = 'other'


def K(*a): return '_'.join(str(x) for x in a).replace(' ', '.')


V = Var
P8 = ptr(CHAR)
SALL = struct('all', [('f%d' % i, t) for i, t in enumerate(SCALARS)])
SREV = struct('rev', [('f%d' % i, t) for i, t in enumerate(reversed(SCALARS))])
SMIX = struct('mix', [('c', CHAR), ('d', DOUBLE), ('b', BOOL), ('s', SHORT), ('l', LLONG), ('u', UCHAR), ('p', ptr(INT)), ('x', CHAR)])
SIN = struct('in', [('a', SHORT), ('b', CHAR)])
SARR = struct('arr', [('n', CHAR), ('v', array(SHORT, 5)), ('m', array(array(INT, 3), 2)), ('q', array(SIN, 3)), ('e', UCHAR)])
SNEST = struct('nest', [('h', CHAR), ('i', SIN), ('k', SMIX), ('pp', ptr(SIN)), ('t', CHAR)])
UN = struct('un', [('c', CHAR), ('s', SHORT), ('i', INT), ('d', DOUBLE), ('w', array(USHORT, 7)), ('in', SIN)], union=True)
SUN = struct('sun', [('k', CHAR), ('u', UN), ('z', CHAR)])
SODD = struct('odd', [('a', CHAR), ('b', CHAR), ('c', CHAR)])
SBIG = struct('big', [('a', array(DOUBLE, 9)), ('b', CHAR)])
STRUCTS = [SALL, SREV, SMIX, SIN, SARR, SNEST, UN, SUN, SODD, SBIG]
HD = HEAD + '\n'.join(structdef(s) for s in STRUCTS) + '\nint q(void *p);\nstruct mix gm; struct arr ga; struct nest gn; int gi[10]; char gc[3][4]; double gd[2]; struct odd go[5]; union un gu;\n'
GL = {'gm': SMIX, 'ga': SARR, 'gn': SNEST, 'gi': array(INT, 10), 'gc': array(array(CHAR, 4), 3), 'gd': array(DOUBLE, 2), 'go': array(SODD, 5), 'gu': UN}
SG = {'$x:q': sigof([ptr(VOID)], INT)}


def D(e, t): return Cast(DOUBLE, e) if t.arith() else e


def fn(key, ret, params, *stmts, **k):
    f = Fun('f', ret, params, list(stmts), **k); f.key = key
    return f


def paths(base, t, depth=0):
    """(text key, lvalue expression, type) of every scalar reachable in an object by constant and variable steps"""
    if t.kind == 'array':
        for n, ix in (('i', V('i')), (str(t.n - 1), Lit(t.n - 1, INT))):
            yield from ((n + '.' + k, e, et) for k, e, et in paths(Index(base, ix), t.sub, depth + 1))
    elif t.kind == 'struct':
        for n, ft, o in t.fields: yield from ((n + '.' + k, e, et) for k, e, et in paths(Dot(base, n), ft, depth + 1))
    else: yield '', base, t


QUICK = [True]


def rw(key, params, l, t, **k):
    """read, write and update of a scalar lvalue"""
    R = D(l, t) if t.arith() else l
    ret = DOUBLE if t.arith() else t
    yield 'load', fn(K(key, 'read'), ret, params, Return_(R), **k)
    yield 'store', fn(K(key, 'write'), VOID, params + [('x', t)], Ex(Assign('=', l, V('x'))), **k)
    if t.arith() and t.kind != 'bool' and not (QUICK[0] and sum(map(ord, key)) % 3):
        yield 'store', fn(K(key, 'update'), ret, params + [('x', t)], Return_(D(Assign('+=', l, V('x')), t)), **k)


I = [('i', INT)]


def members(tier):
    for S in STRUCTS:
        n = S.name.split()[1]
        for k, l, t in paths(Star(V('p')), S): yield from list(rw(K(n, k, 'star'), [('p', ptr(S))] + I, l, t))[:1 if tier != 'thorough' and S in (SMIX, SARR, UN) else 3 if tier == 'thorough' else 0]
        for nm, ft, o in S.fields:
            for k, l, t in paths(Arrow(V('p'), nm), ft): yield from rw(K(n, nm + '.' + k, 'arrow'), [('p', ptr(S))] + I, l, t)
        for nm, ft, o in S.fields[-3:]:
            for k, l, t in list(paths(Dot(Index(V('p'), V('j')), nm), ft))[:2 if tier != 'thorough' else 99]: yield from rw(K(n, nm + '.' + k, 'element'), [('p', ptr(S)), ('j', INT)] + I, l, t)
            for k, l, t in list(paths(Arrow(Bin('+', V('p'), V('j')), nm), ft))[:1]: yield from rw(K(n, nm + '.' + k, 'plus'), [('p', ptr(S)), ('j', INT)] + I, l, t)
    # chains through pointers
    b = Arrow(Arrow(V('p'), 'pp'), 'b'); yield from rw('nest_pp.b', [('p', ptr(SNEST))], b, CHAR)
    b = Dot(Index(Arrow(V('p'), 'pp'), V('i')), 'a'); yield from rw('nest_pp.i.a', [('p', ptr(SNEST))] + I, b, SHORT)
    b = Star(Dot(Arrow(V('p'), 'k'), 'p')); yield from rw('nest_k.star.p', [('p', ptr(SNEST))], b, INT)
    b = Index(Arrow(V('p'), 'p'), V('i')); yield from rw('mix_p.i', [('p', ptr(SMIX))] + I, b, INT)
    b = Dot(Star(IncDec('++', V('p'), 1)), 'b'); yield from rw('in_post', [('p', ptr(SIN))], b, CHAR)
    b = Arrow(IncDec('++', V('p'), 0), 'b'); yield from rw('in_pre', [('p', ptr(SIN))], b, CHAR)
    b = Arrow(IncDec('--', V('p'), 1), 'c'); yield from rw('odd_post', [('p', ptr(SODD))], b, CHAR)
    b = Arrow(IncDec('--', V('p'), 0), 'b'); yield from rw('big_pre', [('p', ptr(SBIG))], b, CHAR)
    b = Index(Star(Arrow(V('p'), 'n') if 0 else V('p')), V('i')); yield from rw('ptr.to.array', [('p', ptr(array(INT, 3)))] + I, b, INT)
    b = Index(Index(V('p'), V('j')), V('i')); yield from rw('rows', [('p', ptr(array(SHORT, 7))), ('j', INT)] + I, b, SHORT)
    b = Index(Star(V('p')), V('i')); yield from rw('ptrptr', [('p', ptr(ptr(LLONG)))] + I, b, LLONG)
    b = Star(Star(V('p'))); yield from rw('ptrptrstar', [('p', ptr(ptr(CHAR)))], b, CHAR)


def globals_():
    for g, t in GL.items():
        for k, l, et in paths(GVar(g, t), t): yield from rw(K('global', g, k), I, l, et)


def frames():
    for t in SCALARS:
        yield from rw(K('local', t), [('a', t)], V('v'), t, locals=[('v', t, V('a'))], frame=('v',))
        yield from rw(K('param', t), [('a', t)], V('a'), t, frame=('a',))
    for t in (SMIX, SARR, SNEST, UN, SUN, array(INT, 4), array(array(CHAR, 3), 5), array(SODD, 3), array(DOUBLE, 2)):
        for k, l, et in list(paths(V('v'), t))[:12]: yield from rw(K('local', t.name.split()[-1], k), I, l, et, locals=[('v', t, None)], frame=('v',))
    # several objects side by side
    rnd = random.Random(7)
    pool = SCALARS + [SMIX, SIN, SODD, UN, array(CHAR, 3), array(SHORT, 3), array(LLONG, 2), SBIG]
    for n in range(30):
        ts = [rnd.choice(pool) for _ in range(rnd.randint(2, 5))]
        names = ['v%d' % i for i in range(len(ts))]
        st = [Ex(Assign('=', l, Cast(et, Lit(1, INT)) if et.arith() else Cast(et, V('i')) if 0 else l)) for nm, t in zip(names, ts) for k, l, et in list(paths(V(nm), t))[-1:] if et.arith()]
        x = [l for nm, t in zip(names, ts) for k, l, et in list(paths(V(nm), t))[:1] if et.arith()]
        r = D(x[0], INT) if x else Lit(1, DOUBLE, '1.0')
        for y in x[1:]: r = Bin('+', r, D(y, INT))
        pn = [('a', rnd.choice(SCALARS)), ('b', rnd.choice(SCALARS))]
        fr = names + (['b'] if n % 3 == 0 else [])
        yield 'frame', fn('side%d' % n, DOUBLE, pn + I, *st, Return_(r), locals=[(nm, t, None) for nm, t in zip(names, ts)], frame=tuple(fr))
    # the frame is given back on every path
    q = lambda l: Call('q', [ptr(VOID)], INT, [Addr(l)])
    v = V('v')
    for n, ss in {'if': [If(q(v), Return_(Lit(1, INT))), Return_(v)], 'loop': [Loop('while', q(v), Block(If(q(v), Return_(Lit(2, INT))), If(q(v), BreakS()))), Return_(v)],
                  'switch': [Switch(v, [([1], [Return_(Lit(5, INT))]), ([2], [Ex(q(v)), BreakS()]), ([None], [Return_(q(v))])]), Return_(v)],
                  'goto': [LBlock('OUT', True, If(q(v), GotoS('OUT')), If(q(v), Return_(v)), Ex(Assign('=', v, Lit(3, INT)))), Return_(v)]}.items():
        yield 'frame', fn(K('leave', n), INT, I, *ss, locals=[('v', INT, V('i'))], frame=('v',))
    yield 'frame', fn('leave_void', VOID, I, If(q(v), Return_()), Ex(Assign('=', v, V('i'))), Ex(q(v)), locals=[('v', INT, V('i'))], frame=('v',))
    yield 'frame', fn('leave_end', VOID, I, Ex(Assign('=', v, V('i'))), Ex(q(v)), locals=[('v', INT, V('i'))], frame=('v',))


def pointers(tier):
    el = SCALARS + [SMIX, SODD, SIN, SBIG, ptr(CHAR), array(INT, 3)]
    for T_ in el:
        p, q, i = V('p'), V('q'), V('i')
        pt = ptr(T_); n = T_.name.replace(' ', '.')
        for IT in (INTS if T_ in (SHORT, SODD) or tier == 'thorough' else [INT, UCHAR] if T_ in (CHAR, SMIX, DOUBLE) else [INT]):
            if IT is BOOL or IT.w == 64: continue   # needs a cast in WCPL (C27)
            a = [('p', pt), ('i', IT)]
            yield 'pointer', fn(K(n, 'plus', IT), pt, a, Return_(Bin('+', p, i)))
            yield 'pointer', fn(K(n, 'minus', IT), pt, a, Return_(Bin('-', p, i)))
            yield 'pointer', fn(K(n, 'index.address', IT), pt, a, Return_(Addr(Index(p, i))))
            yield 'pointer', fn(K(n, 'add.assign', IT), pt, a, Ex(Assign('+=', p, i)), Return_(p))
            yield 'pointer', fn(K(n, 'sub.assign', IT), pt, a, Return_(Assign('-=', p, i)))
        yield 'pointer', fn(K(n, 'reversed'), pt, [('p', pt), ('i', INT)], Return_(Bin('+', i, p)))
        yield 'pointer', fn(K(n, 'plus.const'), pt, [('p', pt)], Return_(Bin('+', p, Lit(3, INT))))
        yield 'pointer', fn(K(n, 'minus.const'), pt, [('p', pt)], Return_(Bin('-', p, Lit(1, INT))))
        yield 'pointer', fn(K(n, 'mixed'), pt, [('p', pt), ('i', INT)], Return_(Bin('-', Bin('+', Bin('+', p, Lit(2, INT)), i), Lit(7, INT))))
        yield 'pointer', fn(K(n, 'difference'), INT, [('p', pt), ('q', pt)], Return_(Cast(INT, Bin('-', p, q))))
        for op in CMP if T_ in (INT, SMIX) or tier == 'thorough' else ('==', '>='): yield 'pointer', fn(K(n, op), INT, [('p', pt), ('q', pt)], Return_(Bin(op, p, q)))
        for op in ('++', '--'):
            for post in (0, 1):
                yield 'pointer', fn(K(n, op, post), pt, [('p', pt), ('q', ptr(pt))], Ex(Assign('=', Star(q), p)), Return_(IncDec(op, p, post)))
                yield 'pointer', fn(K(n, op, post, 'memory'), pt, [('q', ptr(pt))], Return_(IncDec(op, Star(q), post)))
        yield 'pointer', fn(K(n, 'memory.add'), VOID, [('q', ptr(pt)), ('i', INT)], Ex(Assign('+=', Star(q), i)))
        yield 'pointer', fn(K(n, 'not'), INT, [('p', pt)], Return_(Un('!', p)))
        yield 'pointer', fn(K(n, 'if'), INT, [('p', pt)], If(p, Return_(Lit(1, INT))), Return_(Lit(2, INT)))
        yield 'pointer', fn(K(n, 'cast'), ptr(CHAR), [('p', pt), ('i', INT)], Return_(Bin('+', Cast(ptr(CHAR), p), i)))
        yield 'pointer', fn(K(n, 'cast.back'), pt, [('p', ptr(VOID)), ('i', INT)], Return_(Bin('+', Cast(pt, p), i)))
    for S in (SMIX, SARR, SNEST, UN):
        for nm, ft, o in S.fields:
            yield 'pointer', fn(K(S.name.split()[1], 'address', nm), ptr(VOID), [('p', ptr(S))], Return_(Cast(ptr(VOID), Addr(Arrow(V('p'), nm)))))
    yield 'pointer', fn('address.row.element', ptr(INT), [('p', ptr(SARR)), ('i', INT), ('j', INT)], Return_(Addr(Index(Index(Arrow(V('p'), 'm'), V('i')), V('j')))))
    yield 'pointer', fn('address.star', ptr(INT), [('p', ptr(INT))], Return_(Addr(Star(V('p')))))


def aggregates():
    for S in (SMIX, SIN, SODD, UN, SBIG, SARR):
        n = S.name.split()[1]; ps = ptr(S); p, q, v = V('p'), V('q'), V('v')
        yield 'aggregate', fn(K(n, 'star'), VOID, [('p', ps), ('q', ps)], Ex(Assign('=', Star(p), Star(q))))
        yield 'aggregate', fn(K(n, 'element'), VOID, [('p', ps), ('q', ps), ('i', INT)], Ex(Assign('=', Index(p, V('i')), Index(q, Lit(2, INT)))))
        yield 'aggregate', fn(K(n, 'to.local'), INT, [('p', ps)], Ex(Assign('=', v, Star(p))), Return_(Call('q', [ptr(VOID)], INT, [Addr(v)])), locals=[('v', S, None)], frame=('v',))
        yield 'aggregate', fn(K(n, 'from.local'), VOID, [('p', ps)], Ex(Assign('=', Star(p), v)), locals=[('v', S, None)], frame=('v',))
        yield 'aggregate', fn(K(n, 'step'), VOID, [('p', ps), ('q', ps)], Ex(Assign('=', Star(IncDec('++', p, 1)), Star(IncDec('++', q, 1)))), Ex(Assign('=', Star(p), Star(q))))
    yield 'aggregate', fn('member', VOID, [('p', ptr(SNEST)), ('q', ptr(SNEST))], Ex(Assign('=', Arrow(V('p'), 'k'), Arrow(V('q'), 'k'))), Ex(Assign('=', Arrow(V('p'), 'i'), Star(Arrow(V('q'), 'pp')))))
    yield 'aggregate', fn('array.member', VOID, [('p', ptr(SARR)), ('q', ptr(SARR))], Ex(Assign('=', Arrow(V('p'), 'm'), Arrow(V('q'), 'm'))))
    yield 'aggregate', fn('global', VOID, [('p', ptr(SMIX))], Ex(Assign('=', GVar('gm', SMIX), Star(V('p')))))
    yield 'aggregate', fn('from.global', VOID, [('p', ptr(SMIX))], Ex(Assign('=', Star(V('p')), GVar('gm', SMIX))))


def task(c, it):
    rules = {}
    for i, (r, f) in enumerate(it): f.name = 'f%d' % i; rules.setdefault(r, []).append(f)
    for r, l in rules.items():
        for i in range(0, len(l), 30): judge(c, r, l[i:i + 30], HD, SG, rets={'q': INT})
    for s in STRUCTS: c.seen('structures', s.name)


def everything(tier): return list(members(tier)) + list(globals_()) + list(frames()) + list(pointers(tier)) + list(aggregates())


def run(c):
    engine_for()
    QUICK[0] = c.tier != 'thorough'
    l = everything(c.tier); n = 40 if QUICK[0] else 64
    c.pmap([l[i::n] for i in range(n)], task)
    for r, k in (('load', 250), ('store', 350), ('frame', 35), ('pointer', 350), ('aggregate', 30)): c.need(r, k)
