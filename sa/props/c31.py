"""Control statements: generated functions nest if, while, do, for, switch, labelled blocks, break, continue, goto and
return in every pair and many triples; conditions are results of unknown functions or parameters, effects are calls.
The calls made, their order and the value returned must be those of C on every path of up to three loop iterations."""
from emit import *
import itertools
LEVEL = 'other'


class Gen:
    """statement templates; every effect and condition is a call with its own number"""

    def __init__(self): self.n = 0

    def k(self): self.n += 1; return self.n

    def g(self): return Ex(Call('g', [INT], INT, [Lit(self.k(), INT)]))

    def q(self): return Call('h', [INT], INT, [Lit(self.k(), INT)])


def jump(G, j):
    if j == 'break': return BreakS()
    if j == 'continue': return ContS()
    if j == 'return': return Return_(Lit(G.k() + 100, INT))
    if j.startswith('goto'): return GotoS(j[5:])
    return Ex(Call('g', [INT], INT, [Lit(G.k(), INT)]))


def loop(G, kind, *body):
    q = G.q()
    if kind == 'while': return Loop('while', q, Block(*body))
    if kind == 'do': return Loop('do', q, Block(*body))
    if kind == 'for': return Loop('for', q, Block(*body), Call('g', [INT], INT, [Lit(G.k(), INT)]), Call('g', [INT], INT, [Lit(G.k(), INT)]))
    if kind == 'for;;': return Loop('for', None, Block(If(G.q(), BreakS()), *body), None, Call('g', [INT], INT, [Lit(G.k(), INT)]))
    if kind == 'while1': return Loop('while', Lit(1, INT), Block(*body, If(G.q(), BreakS())))
    if kind == 'do0': return Loop('do', Lit(0, INT), Block(*body))
    if kind == 'start': return LBlock('L%d' % G.k(), False, *body)
    if kind == 'end': return LBlock('L%d' % G.k(), True, *body)
    if kind == 'retry':
        l = 'L%d' % G.k(); return LBlock(l, False, *body, If(G.q(), GotoS(l)))
    if kind == 'skip':
        l = 'L%d' % G.k(); return LBlock(l, True, If(G.q(), GotoS(l)), *body)
    raise KeyError(kind)


LOOPS = ['while', 'do', 'for', 'for;;', 'while1', 'do0']
REG = LOOPS + ['switch', 'retry', 'skip', 'if', 'else', 'block']


def region(G, kind, body):
    """a statement of the kind around the body"""
    if kind == 'if': return If(G.q(), Block(*body))
    if kind == 'else': return If(G.q(), Block(G.g()), Block(*body))
    if kind == 'block': return Block(*body)
    if kind == 'switch': return Switch(Var('a'), [([1], list(body)), ([2, 3], [G.g(), BreakS()]), ([None], [G.g()])])
    return loop(G, kind, *body)


def allowed(j, ctx):
    if j == 'break': return any(k in LOOPS or k == 'switch' for k in ctx)
    if j == 'continue': return any(k in LOOPS for k in ctx)
    return True


def fn(key, *stmts):
    f = Fun('f', INT, [('a', INT), ('b', INT)], list(stmts)); f.key = key
    return f


JUMPS = ['break', 'continue', 'return', 'fall', 'goto OUT', 'goto TOP', 'goto MID']


def nests(tier):
    """one jump inside two nested regions inside a labelled pair"""
    for k1, k2 in itertools.product(REG, REG):
        for j in JUMPS:
            if not allowed(j, [k1, k2]): continue
            # quick: break and continue everywhere, the other jumps in turn
            if tier != 'thorough' and j not in ('break', 'continue') and (REG.index(k1) * 5 + REG.index(k2) + JUMPS.index(j)) % 5: continue
            G = Gen()
            inner = region(G, k2, [G.g(), If(G.q(), jump(G, j)), G.g()])
            mid = [inner, G.g()]
            outer = region(G, k1, [LBlock('MID', True, *mid)] if j == 'goto MID' else mid)
            body = [outer, G.g()]
            if j == 'goto OUT': body = [LBlock('OUT', True, *body), G.g()]
            if j == 'goto TOP': body = [LBlock('TOP', False, *body), G.g()]
            yield 'nest', fn('%s_%s_%s' % (k1, k2, j.replace(' ', '.')), *body, Return_(Lit(0, INT)))


def bare():
    """unconditional jumps, empty bodies, unreachable rest, dangling else, loops over locals"""
    a, b, i, s = Var('a'), Var('b'), Var('i'), Var('s')
    for k in LOOPS:
        for j in ('break', 'continue', 'return', 'fall'):
            for last in (0, 1):
                if k == 'while1' and j == 'continue': continue
                G = Gen()
                yield 'loop', fn('%s_%s_%s' % (k, j, 'last' if last else 'middle'), region(G, k, [G.g(), jump(G, j)] + ([] if last else [G.g()])), G.g(), Return_(a))
    for k in ('while', 'do', 'for'):
        G = Gen(); yield 'loop', fn(k + '_empty', region(G, k, []), Return_(a))
    for j in ('break', 'continue'):
        for k in ('while', 'do', 'for'):
            G = Gen(); yield 'loop', fn('%s_else_%s' % (k, j), region(G, k, [If(G.q(), G.g(), jump(G, j)), G.g()]), Return_(a))
            G = Gen(); yield 'loop', fn('%s_both_%s' % (k, j), region(G, k, [If(G.q(), jump(G, j), jump(G, 'return')), G.g()]), Return_(a))
            G = Gen(); yield 'loop', fn('%s_two_%s' % (k, j), region(G, k, [If(G.q(), jump(G, j)), G.g(), If(G.q(), jump(G, 'continue')), If(G.q(), jump(G, 'break')), G.g()]), Return_(a))
    G = Gen(); yield 'if', fn('dangling', If(G.q(), If(G.q(), G.g(), G.g())), Return_(a))
    G = Gen(); yield 'if', fn('chain', If(G.q(), G.g(), If(G.q(), G.g(), If(G.q(), G.g(), G.g()))), Return_(a))
    G = Gen(); yield 'if', fn('empty.arms', If(G.q(), Block(), G.g()), If(G.q(), G.g(), Block()), If(G.q(), Block(), Block()), Return_(a))
    G = Gen(); yield 'if', fn('return.both', If(G.q(), Return_(a), Return_(b)), Return_(Lit(0, INT)))
    G = Gen(); yield 'if', fn('return.else', If(G.q(), G.g(), Return_(b)), Return_(a))
    G = Gen(); yield 'if', fn('early', If(Bin('<', a, b), Return_(Lit(1, INT))), If(Bin('==', a, b), Return_(Lit(2, INT))), G.g(), Return_(Lit(3, INT)))
    for n, q in (('const1', Lit(1, INT)), ('const0', Lit(0, INT)), ('notconst', Un('!', Lit(5, INT))), ('andconst', Bin('&&', Lit(1, INT), a)), ('orconst', Bin('||', a, Lit(1, INT))), ('and0', Bin('&&', a, Lit(0, INT)))):
        G = Gen(); yield 'if', fn(n, If(q, G.g(), G.g()), Return_(a))
        G = Gen(); yield 'if', fn(n + '_noelse', If(q, G.g()), Return_(a))
        G = Gen(); yield 'loop', fn('do_' + n, Loop('do', q, Block(G.g(), If(G.q(), BreakS()))), Return_(a))
        G = Gen(); yield 'loop', fn('while_' + n, Loop('while', q, Block(G.g(), If(G.q(), BreakS()))), Return_(a))
    def lf(key, *st):
        f = Fun('f', INT, [('a', INT), ('b', INT)], list(st), [('i', INT, None), ('s', INT, Lit(0, INT))]); f.key = key; return f
    z = Lit(0, INT); A = Assign
    yield 'loop', lf('sum', Loop('for', Bin('<', i, a), Ex(A('+=', s, i)), A('=', i, z), IncDec('++', i, 0)), Return_(s))
    yield 'loop', lf('sum.skip', Loop('for', Bin('<', i, a), Block(If(Bin('==', i, b), ContS()), Ex(A('+=', s, i))), A('=', i, z), IncDec('++', i, 1)), Return_(s))
    yield 'loop', lf('sum.stop', Loop('for', Bin('<', i, a), Block(If(Bin('==', i, b), BreakS()), Ex(A('+=', s, i))), A('=', i, z), IncDec('++', i, 1)), Return_(i))
    yield 'loop', lf('countdown', Ex(A('=', i, a)), Loop('while', Bin('>', IncDec('--', i, 1), z), Ex(A('+=', s, i))), Return_(Bin('+', s, i)))
    yield 'loop', lf('do.once', Ex(A('=', i, a)), Loop('do', Bin('<', i, b), Block(Ex(A('+=', s, i)), Ex(IncDec('++', i, 1)))), Return_(s))
    yield 'loop', lf('comma', Loop('for', Bin(',', A('+=', s, Lit(2, INT)), Bin('<', i, a)), Ex(A('+=', s, i)), Bin(',', A('=', i, b), A('=', s, z)), Bin(',', IncDec('++', i, 0), A('+=', s, Lit(1, INT)))), Return_(s))


VALS = {
    'dense': [0, 1, 2, 3], 'offset': [10, 11, 12, 13], 'negative': [-2, -1, 0, 1], 'allneg': [-9, -8, -6], 'sparse': [1, 100, 10000], 'mixed': [1, 2, 3, 500, 501, -7],
    'gap': [1, 2, 5, 6, 9], 'big': [2147483646, 2147483647], 'small': [-2147483647, -2147483646], 'extremes': [-2147483647, 2147483647], 'one': [7], 'zero': [0], 'minus': [-1], 'wide': [0, 63, 64, 127, 128],
    'unordered': [3, 1, 2, 0], 'table20': list(range(5, 25)), 'neartop': [2147483640, 2147483641, 2147483642, 2147483643, 2147483647], 'bytes': [65, 66, 90, 255, 256],
}


def switches():
    T8 = [CHAR, UCHAR, SHORT, USHORT, INT, BOOL]
    for n, vs in VALS.items():
        for shape in ('breaks', 'falls', 'returns', 'shared', 'default.first', 'default.middle', 'no.default'):
            G = Gen(); arms = []
            for i, v in enumerate(vs):
                if shape == 'breaks' or shape.startswith('default') or shape == 'no.default': arms.append(([v], [G.g(), BreakS()]))
                elif shape == 'falls': arms.append(([v], [G.g()] + ([BreakS()] if i % 3 == 2 else [])))
                elif shape == 'returns': arms.append(([v], [Return_(Lit(10 + i, INT))]))
                elif shape == 'shared':
                    if i % 2: arms[-1][0].append(v)
                    else: arms.append(([v], [G.g(), BreakS()]))
            d = ([None], [G.g()] + ([BreakS()] if shape == 'default.middle' else []))
            if shape == 'default.first': arms.insert(0, d)
            elif shape == 'default.middle': arms.insert(len(arms) // 2, d)
            elif shape == 'shared': arms[0][0].append(None)
            elif shape != 'no.default': arms.append(d)
            yield 'switch', fn('%s_%s' % (n, shape), Switch(Var('a'), arms), G.g(), Return_(Lit(0, INT)))
    for t in T8:
        for n in ('dense', 'negative', 'sparse', 'mixed', 'bytes'):
            G = Gen()
            f = Fun('f', INT, [('a', t)], [Switch(Var('a'), [([v], [G.g(), BreakS()]) for v in VALS[n]] + [([None], [G.g()])]), Return_(Lit(0, INT))]); f.key = '%s_%s' % (t.name.replace(' ', '.'), n)
            yield 'switch', f
    for t in (UINT, ULONG):
        for n in ('dense', 'offset', 'sparse', 'gap'):
            G = Gen()
            f = Fun('f', INT, [('a', t)], [Switch(Cast(INT, Var('a')), [([v], [G.g(), BreakS()]) for v in VALS[n]] + [([None], [G.g()])]), Return_(Lit(0, INT))]); f.key = '%s_%s' % (t.name.replace(' ', '.'), n)
            yield 'switch', f
    G = Gen(); yield 'switch', fn('only.default', Switch(Var('a'), [([None], [G.g()])]), Return_(Lit(0, INT)))
    G = Gen(); yield 'switch', fn('call', Switch(G.q(), [([1], [G.g(), BreakS()]), ([2], [G.g()]), ([None], [G.g()])]), Return_(Lit(0, INT)))
    G = Gen(); yield 'switch', fn('expr', Switch(Bin('-', Var('a'), Var('b')), [([-1], [G.g(), BreakS()]), ([0], [G.g()]), ([1], [G.g()])]), Return_(Lit(0, INT)))
    G = Gen(); yield 'switch', fn('const', Switch(Lit(2, INT), [([1], [G.g(), BreakS()]), ([2], [G.g(), BreakS()]), ([None], [G.g()])]), Return_(Lit(0, INT)))
    for n, vs in (('dense', [0, 1, 2]), ('sparse', [1, 100, 10000])):
        for m, ws in (('dense', [0, 1, 2]), ('sparse', [-5, 50, 500])):
            G = Gen()
            inner = Switch(Var('b'), [([w], [G.g(), BreakS()]) for w in ws] + [([None], [G.g()])])
            yield 'switch', fn('nested_%s_%s' % (n, m), Switch(Var('a'), [([vs[0]], [inner, G.g(), BreakS()]), ([vs[1]], [G.g()]), ([vs[2]], [If(Var('b'), BreakS()), G.g()]), ([None], [G.g()])]), Return_(Lit(0, INT)))
    for k in ('while', 'do', 'for'):
        for j in ('continue', 'break', 'return'):
            G = Gen()
            sw = Switch(Var('a'), [([1], [jump(G, j)]), ([2], [G.g(), jump(G, j)]), ([3], [G.g()]), ([None], [G.g(), If(G.q(), jump(G, j)), G.g()])])
            yield 'switch', fn('in_%s_%s' % (k, j), region(G, k, [sw, G.g()]), Return_(Lit(0, INT)))


def triples():
    for k1, k2, k3 in itertools.product(['while', 'for', 'switch', 'retry'], ['do', 'switch', 'if', 'for'], ['while', 'do', 'switch', 'else', 'skip']):
        for j in ('break', 'continue', 'goto OUT'):
            if not allowed(j, [k1, k2, k3]): continue
            G = Gen()
            x = region(G, k3, [G.g(), If(G.q(), jump(G, j)), G.g()])
            y = region(G, k2, [x, G.g()]); z = region(G, k1, [y, G.g()])
            b = [LBlock('OUT', True, z, G.g()), G.g()] if j == 'goto OUT' else [z, G.g()]
            yield 'nest', fn('%s_%s_%s_%s' % (k1, k2, k3, j.replace(' ', '.')), *b, Return_(Lit(0, INT)))


HD = HEAD + 'int g(int a); int h(int a);\n'
SG = {'$x:g': sigof([INT], INT), '$x:h': sigof([INT], INT)}


def task(c, it):
    rules = {}
    for i, (r, f) in enumerate(it): f.name = 'f%d' % i; rules.setdefault(r, []).append(f)
    for r, l in rules.items(): judge(c, r, l, HD, SG, rets={'g': INT, 'h': INT}, maxclasses=400, maxloop=2)
    for _, f in it: c.seen('functions', f.key)


def run(c):
    engine_for()
    all_ = list(nests(c.tier)) + list(bare()) + list(switches()) + (list(triples()) if c.tier == 'thorough' else list(triples())[::4])
    c.pmap([all_[i::max(1, len(all_) // 10)] for i in range(max(1, len(all_) // 10))], task)
    for r, n in (('nest', 350), ('loop', 60), ('if', 10), ('switch', 130)): c.need(r, n)
