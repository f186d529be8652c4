"""Casts between all pairs of arithmetic types, unary operators, increments, compound assignments, conditional and
logical operators over all operand types: the compiler is analysed on a function that applies the operator to parameters
or to objects in memory, and the WebAssembly code it emits, interpreted abstractly with all operands unknown, must
compute the same terms and perform the same memory effects in the same order as the C standard prescribes; float to
integer conversions must not trap or saturate for any value the target type can hold."""
from emit import *
LEVEL = 'other'


def K(*a): return '_'.join(str(x) for x in a).replace(' ', '.')


def D(e): return Cast(DOUBLE, e)


def fn(key, ret, params, *stmts):
    f = Fun('f', ret, params, list(stmts)); f.key = key
    return f


def casts(A):
    for B in SCALARS:
        yield 'cast', fn(K(A, B), DOUBLE, [('a', A)], Return_(D(Cast(B, Var('a')))))
        yield 'cast', fn(K(A, B, 'return'), B, [('a', A)], Return_(Cast(B, Var('a'))))
        if not A.isfloat() or not B.kind == 'bool':
            yield 'cast', fn(K(A, B, 'stored'), VOID, [('a', A), ('p', ptr(B))], Ex(Assign('=', Star(Var('p')), Cast(B, Var('a')))))


def unary(A):
    for op in '+-!~':
        if op == '~' and A.isfloat(): continue
        yield 'unary', fn(K(op, A), DOUBLE, [('a', A)], Return_(D(Un(op, Var('a')))))
        yield 'unary', fn(K(op, 'memory', A), DOUBLE, [('p', ptr(A))], Return_(D(Un(op, Star(Var('p'))))))


def incdec(A):
    r = Var('r')
    for op in ('++', '--'):
        for post in (0, 1):
            n = K(('post' if post else 'pre') + op, A)
            yield 'incdec', fn(n, VOID, [('r', ptr(DOUBLE)), ('a', A)], Ex(Assign('=', Star(r), D(IncDec(op, Var('a'), post)))),
                               Ex(Assign('=', Index(r, Lit(1, INT)), D(Var('a')))))
            yield 'incdec', fn(K(n, 'memory'), DOUBLE, [('p', ptr(A))], Return_(D(IncDec(op, Star(Var('p')), post))))
            yield 'incdec', fn(K(n, 'element'), DOUBLE, [('p', ptr(A)), ('i', INT)], Return_(D(IncDec(op, Index(Var('p'), Var('i')), post))))
            yield 'incdec', fn(K(n, 'statement'), A, [('a', A)], Ex(IncDec(op, Var('a'), post)), Return_(Var('a')))
            yield 'incdec', fn(K(n, 'through.postincrement'), A, [('p', ptr(A))], Ex(IncDec(op, Star(IncDec('++', Var('p'), 1)), post)), Return_(Star(Var('p'))))


CO = ['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']


def compound(A, B):
    r = Var('r')
    for op in CO:
        if op[0] in '%&|^<>' and (A.isfloat() or B.isfloat()): continue
        # WCPL documents that int-sized and wider targets are not narrowed implicitly: such operands need a cast (C27)
        if op[:2] not in ('<<', '>>') and promote(A) is A and common(A, B) is not A: continue
        yield 'compound', fn(K(A, op, B), VOID, [('r', ptr(DOUBLE)), ('a', A), ('b', B)],
                             Ex(Assign('=', Star(r), D(Assign(op, Var('a'), Var('b'))))), Ex(Assign('=', Index(r, Lit(1, INT)), D(Var('a')))))
        if A is B or B is INT:
            yield 'compound', fn(K(A, op, B, 'memory'), DOUBLE, [('p', ptr(A)), ('b', B)], Return_(D(Assign(op, Star(Var('p')), Var('b')))))


def cond(A, B):
    yield 'conditional', fn(K(A, B), DOUBLE, [('q', INT), ('a', A), ('b', B)], Return_(D(Cond(Var('q'), Var('a'), Var('b')))))
    if A is B:
        for Q in SCALARS:
            yield 'conditional', fn(K(Q, 'test', A), A, [('q', Q), ('a', A), ('b', A)], Return_(Cond(Var('q'), Var('a'), Var('b'))))
        c = Call('g', [A], A, [Var('a')])
        yield 'conditional', fn(K(A, 'call'), A, [('q', INT), ('a', A)], Return_(Cond(Var('q'), c, Var('a'))))
        yield 'conditional', fn(K(A, 'call2'), A, [('q', INT), ('a', A)], Return_(Cond(Un('!', Var('q')), Var('a'), c)))


def logic(A):
    one = Lit(1, INT); two = Lit(2, INT)
    for n, e in (('if', Var('a')), ('ifnot', Un('!', Var('a'))), ('ifnotnot', Un('!', Un('!', Var('a'))))):
        yield 'logical', fn(K(A, n), INT, [('a', A)], If(e, Return_(one)), Return_(two))
    for op in ('&&', '||'):
        g = Call('g', [A], A, [Var('a')])
        yield 'logical', fn(K(A, op, 'call'), INT, [('a', A)], Return_(Bin(op, Var('a'), g)))
        yield 'logical', fn(K('call', op, A), INT, [('a', A)], Return_(Bin(op, g, Var('a'))))
        yield 'logical', fn(K('if', A, op, 'call'), INT, [('a', A)], If(Bin(op, Var('a'), g), Return_(one)), Return_(two))
        yield 'logical', fn(K('ifnot', A, op, 'call'), INT, [('a', A)], If(Un('!', Bin(op, Var('a'), g)), Return_(one)), Return_(two))
    x = Bin('&&', Bin('||', Var('a'), Var('b')), Un('!', Bin('&&', Var('a'), Var('b'))))
    yield 'logical', fn(K(A, 'xor'), INT, [('a', A), ('b', A)], Return_(x))


def comma(A):
    yield 'comma', fn(K(A), A, [('p', ptr(A)), ('a', A)], Return_(Bin(',', Assign('=', Star(Var('p')), Var('a')), Star(Index(Cast(ptr(ptr(A)), Var('p')), Lit(1, INT))) if 0 else Index(Var('p'), Lit(1, INT)))))
    yield 'comma', fn(K(A, 'order'), A, [('a', A)], Return_(Bin(',', Call('g', [A], A, [Var('a')]), Call('h', [A], A, [Var('a')]))))


def sequence(A):
    """assignments as values, chains, and operand order of effects"""
    a, b = Var('a'), Var('b')
    g = lambda n, e: Call(n, [A], A, [e])
    yield 'assignment', fn(K(A, 'chain'), VOID, [('p', ptr(A)), ('q', ptr(A)), ('a', A)], Ex(Assign('=', Star(Var('p')), Assign('=', Star(Var('q')), a))))
    yield 'assignment', fn(K(A, 'chain', 'local'), A, [('p', ptr(A)), ('a', A), ('b', A)], Ex(Assign('=', b, Assign('=', Star(Var('p')), a))), Return_(b))
    yield 'assignment', fn(K(A, 'swap'), VOID, [('p', ptr(A)), ('q', ptr(A)), ('a', A)], Ex(Assign('=', a, Star(Var('p')))),
                           Ex(Assign('=', Star(Var('p')), Star(Var('q')))), Ex(Assign('=', Star(Var('q')), a)))
    yield 'assignment', fn(K(A, 'copy', 'step'), VOID, [('p', ptr(A)), ('q', ptr(A))], Ex(Assign('=', Star(IncDec('++', Var('p'), 1)), Star(IncDec('++', Var('q'), 1)))),
                           Ex(Assign('=', Star(Var('p')), Star(Var('q')))))
    yield 'assignment', fn(K(A, 'nested', 'calls'), A, [('a', A), ('b', A)], Return_(g('h', g('g', a))))
    yield 'assignment', fn(K(A, 'value', 'used'), A, [('a', A), ('b', A)], If(Bin('==', Assign('=', a, b), Lit(0, INT)), Return_(g('g', a))), Return_(g('h', b)))


def groups(tier):
    for A in SCALARS:
        yield A, [x for G in (casts, unary) for x in G(A)]
        yield A, [x for G in (incdec, comma, sequence) for x in G(A)]
        yield A, list(logic(A))
        bs = SCALARS if tier == 'thorough' else [A, INT] + [t for t in (UCHAR, UINT, LLONG, DOUBLE) if t is not A and t is not INT]
        for B in dict.fromkeys(bs): yield A, list(compound(A, B))
        for B in SCALARS: 
            if SCALARS.index(B) % 4 == 0: yield A, [x for B2 in SCALARS[SCALARS.index(B):SCALARS.index(B) + 4] for x in cond(A, B2)]


def task(c, it):
    A, fs = it
    rules = {}
    for i, (r, f) in enumerate(fs): f.name = 'f%d' % i; rules.setdefault(r, []).append(f)
    head = HEAD + '%s; %s;\n' % (A.decl('g(%s)' % A.name), A.decl('h(%s)' % A.name))
    sg = {'$x:g': sigof([A], A), '$x:h': sigof([A], A)}
    for r, l in rules.items():
        for i in range(0, len(l), 24): judge(c, r, l[i:i + 24], head, sg, rets={'g': A, 'h': A})
    c.seen('types', A)


def run(c):
    engine_for()
    c.pmap(list(groups(c.tier)), task)
    for r, n in (('cast', 450), ('unary', 95), ('incdec', 250), ('compound', 550), ('conditional', 300), ('logical', 140), ('comma', 20), ('assignment', 70)): c.need(r, n)
