"""Calls and function definitions: argument and result conversions for every parameter type, several arguments and nested
calls in order, calls through function pointers, variable arguments as laid out by the caller and fetched by the callee,
structure results, recursion.  For unknown argument values the emitted code must call the same function with the same
values, the stack pointer must protect the caller's frame during every call and be back at its value at every return."""
from emit import *
LEVEL = 'other'
V = Var


def K(*a): return '_'.join(str(x) for x in a).replace(' ', '.')


def fn(key, ret, params, *stmts, **k):
    f = Fun('f', ret, params, list(stmts), **k); f.key = key
    for _, t in params:
        if t.kind == 'ptr' and t.sub.kind == 'func': f.indirect = t.sub.sub
    return f


def tn(t): return t.name.replace(' ', '_').replace('*', 'p')


SM = struct('sm', [('a', CHAR), ('b', INT)])
BG = struct('bg', [('d', DOUBLE), ('c', array(CHAR, 5)), ('n', INT)])
DECLS = [HEAD, '#include <stdarg.h>\n', structdef(SM), structdef(BG), 'int q(void *p);']
SG = {'$x:q': sigof([ptr(VOID)], INT)}; RETS = {'q': INT}


def declare(name, params, ret, va=False):
    DECLS.append('%s;' % ret.decl('%s(%s)' % (name, ', '.join([p.decl('') for p in params] + (['...'] if va else [])) or 'void')))
    SG['$x:' + name] = sigof(params, ret, va); RETS[name] = ret


for t in SCALARS:
    declare('f_' + tn(t), [t], t)
    declare('g_' + tn(t), [INT, t, t, DOUBLE], VOID)
declare('h', [INT, INT, INT], INT); declare('n0', [], INT); declare('v', [], VOID); declare('pp', [ptr(CHAR), ptr(INT)], ptr(CHAR))
declare('va', [INT], INT, True); declare('vs', [ptr(CHAR), DOUBLE], VOID, True); declare('vd', [ptr(CHAR)], DOUBLE, True)
declare('msm', [INT], SM); declare('mbg', [ptr(CHAR), DOUBLE], BG); declare('mvs', [INT], SM, True)
HD = '\n'.join(DECLS) + '\n'
VARIADIC = {'va', 'vs', 'vd', 'mvs'}


def widens(a, t):
    """a value of type a converts to t without loss: accepted as an argument"""
    if a is t: return True
    if t.kind == 'bool': return False
    if a.kind == 'bool': return True
    if t.isfloat(): return not (a is DOUBLE)
    if a.isfloat(): return False
    return t.w > a.w and (t.signed or not a.signed) or t.w == a.w and t.signed == a.signed and t.rank >= a.rank


def arguments(thorough):
    a, b = V('a'), V('b')
    for t in SCALARS:
        f = 'f_' + tn(t); g = 'g_' + tn(t)
        for s in SCALARS:
            narrow = t.isint() and t.w < 32 and s.isint() and promote(s) is INT   # anything that promotes to int
            if not (widens(s, t) or narrow): continue
            yield 'argument', fn(K(t, 'from', s), t, [('a', s)], Return_(Call(f, [t], t, [a])))
        yield 'argument', fn(K(t, 'cast'), t, [('a', LLONG)], Return_(Call(f, [t], t, [Cast(t, a)])))
        yield 'argument', fn(K(t, 'several'), VOID, [('a', t), ('b', t), ('i', INT)], Ex(Call(g, [INT, t, t, DOUBLE], VOID, [V('i'), b, a, Lit(2, DOUBLE, '2.0')])))
        yield 'argument', fn(K(t, 'expression'), VOID, [('a', t), ('p', ptr(t)), ('i', INT)],
                             Ex(Call(g, [INT, t, t, DOUBLE], VOID, [Bin('+', V('i'), Lit(1, INT)), Index(V('p'), V('i')), Star(V('p')), Cast(DOUBLE, a)])))
        yield 'argument', fn(K(t, 'assigned'), VOID, [('a', t), ('b', t), ('i', INT)], Ex(Call(g, [INT, t, t, DOUBLE], VOID, [V('i'), Assign('=', a, b), b, Cast(DOUBLE, V('i'))])), Ex(Call(f, [t], t, [a])))
        yield 'argument', fn(K(t, 'increment'), VOID, [('a', t), ('i', INT)], Ex(Call(f, [t], t, [IncDec('++', a, 1)])), Ex(Call(f, [t], t, [IncDec('--', a, 0)])), Ex(Call(f, [t], t, [a])))
        yield 'argument', fn(K(t, 'compound'), VOID, [('a', t), ('b', t)], Ex(Call(f, [t], t, [Assign('-=', a, b)])) if t.kind != 'bool' else Ex(Call(f, [t], t, [a])))
        yield 'argument', fn(K(t, 'conditional'), VOID, [('a', t), ('b', t), ('i', INT)], Ex(Call(f, [t], t, [Cond(V('i'), a, b)])))
        yield 'result', fn(K(t, 'used'), DOUBLE, [('a', t)], Return_(Cast(DOUBLE, Call(f, [t], t, [Call(f, [t], t, [a])]))))
        yield 'result', fn(K(t, 'added'), DOUBLE, [('a', t), ('b', t)], Return_(Cast(DOUBLE, Bin('+', Call(f, [t], t, [a]), Call(f, [t], t, [b])))))
        yield 'result', fn(K(t, 'dropped'), INT, [('a', t)], Ex(Call(f, [t], t, [a])), Ex(Call(f, [t], t, [Call(f, [t], t, [a])])), Return_(Lit(3, INT)))
        yield 'result', fn(K(t, 'stored'), VOID, [('a', t), ('p', ptr(t))], Ex(Assign('=', Star(V('p')), Call(f, [t], t, [a]))))
        yield 'result', fn(K(t, 'local'), t, [('a', t), ('b', t)], Ex(Assign('=', b, Call(f, [t], t, [a]))), Ex(Call(f, [t], t, [b])), Return_(b))
        yield 'result', fn(K(t, 'negated'), INT, [('a', t)], Return_(Un('!', Call(f, [t], t, [a]))))
        for s in SCALARS if thorough else (BOOL, UCHAR, SHORT, LLONG): yield 'result', fn(K(t, 'cast', s), s, [('a', t)], Return_(Cast(s, Call(f, [t], t, [a]))))
        for s in SCALARS:
            if not widens(t, s): continue
            yield 'result', fn(K(t, 'returned.as', s), s, [('a', t)], Return_(a))
            if thorough or (SCALARS.index(s) + SCALARS.index(t)) % 3 == 0: yield 'result', fn(K(t, 'call.returned.as', s), s, [('a', t)], Return_(Call(f, [t], t, [a])))
    C = lambda *x: Call('h', [INT, INT, INT], INT, list(x))
    N = Call('n0', [], INT, [])
    yield 'call', fn('nested', INT, [('a', INT), ('b', INT)], Return_(C(C(a, b, N), Lit(5, INT), C(N, N, a))))
    yield 'call', fn('order', INT, [('a', INT), ('b', INT)], Return_(C(IncDec('++', a, 1), IncDec('++', b, 0), N)))
    yield 'call', fn('statement.void', VOID, [], Ex(Call('v', [], VOID, [])), Ex(N), Ex(Call('v', [], VOID, [])))
    yield 'call', fn('pointers', ptr(CHAR), [('a', ptr(CHAR)), ('b', ptr(INT))], Return_(Call('pp', [ptr(CHAR), ptr(INT)], ptr(CHAR), [Bin('+', a, Lit(1, INT)), Addr(Index(b, Lit(2, INT)))])))
    yield 'call', fn('void.pointer', INT, [('a', ptr(CHAR)), ('b', ptr(ptr(INT)))], Return_(Bin('+', Call('q', [ptr(VOID)], INT, [a]), Call('q', [ptr(VOID)], INT, [Star(b)]))))
    yield 'call', fn('comma', INT, [('a', INT)], Return_(C(Bin(',', N, a), a, a)))
    yield 'call', fn('discarded.operand', INT, [('a', INT)], Ex(Bin('+', N, a)), Ex(Bin(',', N, N)), Ex(Cast(VOID, N)) if 0 else Ex(N), Return_(a))
    yield 'call', fn('logical', INT, [('a', INT)], Ex(Bin('&&', N, N)), Ex(Bin('||', N, N)), Return_(Bin('||', Bin('&&', N, a), N)))
    yield 'call', fn('in.frame', INT, [('a', INT)], Ex(Assign('=', V('x'), C(V('x'), a, V('x')))), Return_(C(V('x'), V('x'), a)), locals=[('x', INT, V('a'))], frame=('x',))


def indirect():
    p = V('p')

    def FP(ret, params): return ptr(func(ret, params))
    for t in SCALARS:
        F = FP(t, [t])
        yield 'indirect', fn(K(t), t, [('p', F), ('a', t)], Return_(Call(p, [t], t, [V('a')])))
        F = FP(VOID, [INT, t, DOUBLE])
        yield 'indirect', fn(K(t, 'three'), VOID, [('p', F), ('a', t), ('i', INT)], Ex(Call(p, [INT, t, DOUBLE], VOID, [V('i'), V('a'), Cast(DOUBLE, V('i'))])))
    F = FP(INT, [INT, LLONG])
    yield 'indirect', fn('memory', INT, [('p', ptr(F)), ('a', INT)], Return_(Call(Star(p), [INT, LLONG], INT, [V('a'), Cast(LLONG, V('a'))])))
    F = FP(INT, [])
    yield 'indirect', fn('none', INT, [('p', F)], Return_(Call(p, [], INT, [])))
    F = FP(INT, [INT])
    yield 'indirect', fn('nested', INT, [('p', F), ('a', INT)], Return_(Call(p, [INT], INT, [Call(p, [INT], INT, [V('a')])])))


def variadic():
    a = V('a')
    va = lambda *x: Call('va', [INT], INT, list(x), True)
    for t in SCALARS + [ptr(CHAR)]:
        yield 'variadic', fn(K(t), INT, [('a', t)], Return_(va(Lit(1, INT), a)))
        yield 'variadic', fn(K(t, 'memory'), INT, [('p', ptr(t)), ('i', INT)], Return_(va(V('i'), Index(V('p'), V('i')), Star(V('p')))))
        yield 'variadic', fn(K(t, 'mixed'), VOID, [('a', t), ('s', ptr(CHAR)), ('d', DOUBLE)], Ex(Call('vs', [ptr(CHAR), DOUBLE], VOID, [V('s'), V('d'), a, Lit(7, INT), a, V('d'), V('s'), a], True)))
        yield 'variadic', fn(K(t, 'result'), DOUBLE, [('a', t), ('s', ptr(CHAR))], Return_(Call('vd', [ptr(CHAR)], DOUBLE, [V('s'), a], True)))
        yield 'variadic', fn(K(t, 'call'), INT, [('a', t)] if t.arith() else [('a', INT)], Return_(va(Lit(1, INT), Call('f_' + tn(t), [t], t, [a]) if t.arith() else a)))
    i = V('i')
    yield 'variadic', fn('none', INT, [('i', INT)], Return_(va(i)))
    yield 'variadic', fn('nested', INT, [('i', INT)], Return_(va(va(i, Lit(1, INT)), va(i, i, i), va(i))))
    yield 'variadic', fn('nested.last', INT, [('i', INT), ('d', DOUBLE)], Return_(va(i, i, V('d'), va(Lit(2, INT), i, V('d')))))
    yield 'variadic', fn('many', INT, [('i', INT), ('d', DOUBLE), ('l', LLONG)], Return_(va(i, *[V('idl'[k % 3]) for k in range(17)])))
    yield 'variadic', fn('in.frame', INT, [('i', INT)], Ex(va(i, V('x'))), Ex(Assign('=', V('x'), Lit(4, INT))), Return_(va(V('x'), Addr(V('x')) if 0 else V('x'), i)), locals=[('x', INT, V('i'))], frame=('x',))
    yield 'variadic', fn('in.loop', INT, [('i', INT)], Loop('while', va(i, i), Block(If(va(i), BreakS()), Ex(va(i, i, i)))), Return_(i))
    yield 'variadic', fn('in.condition', INT, [('i', INT)], If(Bin('&&', va(i, i), va(i, i, i)), Return_(va(i))), Return_(i))
    yield 'variadic', fn('early.return', INT, [('i', INT)], If(i, Return_(va(i, i))), Return_(va(i)))
    yield 'variadic', fn('array', INT, [('i', INT)], Return_(va(i, V('x'), i)) if 0 else Return_(va(i, Addr(Index(V('x'), Lit(0, INT))), i)), locals=[('x', array(CHAR, 6), None)], frame=('x',))
    # callee side
    ap = V('ap')
    for t in [INT, UINT, LONG, ULONG, LLONG, ULLONG, DOUBLE, ptr(CHAR), ptr(SM)]:
        yield 'va_arg', fn(K(t, 'first'), t, [('i', INT)], VaStart(ap), Return_(VaArg(ap, t)), locals=[('ap', VALIST, None)], va=True)
        yield 'va_arg', fn(K(t, 'second'), t, [('d', DOUBLE), ('i', INT)], VaStart(ap), Ex(VaArg(ap, INT)), Return_(VaArg(ap, t)), locals=[('ap', VALIST, None)], va=True)
        yield 'va_arg', fn(K(t, 'list'), t, [('ap', VALIST)], Ex(VaArg(ap, DOUBLE)), Ex(VaArg(ap, t)), Return_(VaArg(ap, t)))
    yield 'va_arg', fn('sum', DOUBLE, [('n', INT)], VaStart(ap), Loop('while', Bin('>', IncDec('--', V('n'), 1), Lit(0, INT)), Ex(Assign('+=', V('s'), VaArg(ap, DOUBLE)))), Return_(V('s')), locals=[('ap', VALIST, None), ('s', DOUBLE, Lit(0, DOUBLE, '0.0'))], va=True)
    yield 'va_arg', fn('forward', INT, [('i', INT)], VaStart(ap), Return_(Call('q', [ptr(VOID)], INT, [Cast(ptr(VOID), ap)])), locals=[('ap', VALIST, None)], va=True)


def structs():
    v, p = V('v'), V('p')
    for S, call in ((SM, Call('msm', [INT], SM, [V('i')])), (BG, Call('mbg', [ptr(CHAR), DOUBLE], BG, [V('s'), Cast(DOUBLE, V('i'))])), (SM, Call('mvs', [INT], SM, [V('i'), V('i'), V('s')], True))):
        n = K(S.name.split()[1], call.name); P_ = [('i', INT), ('s', ptr(CHAR))]
        yield 'struct', fn(K(n, 'local'), INT, P_, Ex(Assign('=', v, call)), Return_(Call('q', [ptr(VOID)], INT, [Addr(v)])), locals=[('v', S, None)], frame=('v',))
        yield 'struct', fn(K(n, 'pointer'), VOID, P_ + [('p', ptr(S))], Ex(Assign('=', Star(p), call)))
        yield 'struct', fn(K(n, 'element'), VOID, P_ + [('p', ptr(S))], Ex(Assign('=', Index(p, V('i')), call)))
        yield 'struct', fn(K(n, 'return.local'), S, P_, Ex(Assign('=', v, call)), Return_(v), locals=[('v', S, None)], frame=('v',))
        yield 'struct', fn(K(n, 'return.star'), S, [('p', ptr(S))], Return_(Star(p)))
        yield 'struct', fn(K(n, 'return.early'), S, P_ + [('p', ptr(S))], If(V('i'), Return_(Star(p))), Return_(Index(p, V('i'))))
        yield 'struct', fn(K(n, 'return.call'), S, P_, Return_(call))
    yield 'struct', fn('filled', SM, [('i', INT)], Ex(Assign('=', Dot(v, 'a'), Cast(CHAR, V('i')))), Ex(Assign('=', Dot(v, 'b'), V('i'))), Return_(v), locals=[('v', SM, None)], frame=('v',))


def params_():
    """every position of a parameter list"""
    pool = [INT, CHAR, DOUBLE, LLONG, BOOL, ptr(INT), FLOAT, USHORT]
    for n in range(1, 9):
        ps = [('p%d' % i, pool[(i * 3 + n) % 8]) for i in range(n)]
        for i, (nm, t) in enumerate(ps):
            yield 'parameter', fn(K(n, i), t, ps, Return_(V(nm)))
        nm, t = ps[-1]
        if n > 1: yield 'parameter', fn(K(n, 'assigned'), t, ps + [('z', t)], Ex(Assign('=', V(nm), V('z'))), Return_(V(nm)))
    for t in SCALARS:
        yield 'parameter', fn(K(t, 'local.copy'), t, [('a', t)], Ex(Assign('=', V('a'), V('x'))), Return_(V('x')), locals=[('x', t, V('a'))])
        yield 'parameter', fn(K(t, 'shadow'), t, [('a', t), ('b', t)], Ex(Assign('=', V('x'), V('b'))), Ex(Assign('=', V('y'), V('x'))), Return_(V('y')), locals=[('x', t, V('a')), ('y', t, None)])


def task(c, it):
    rules = {}
    for i, (r, f) in enumerate(it): f.name = 't%d' % i; rules.setdefault(r, []).append(f)
    for r, l in rules.items():
        for i in range(0, len(l), 30): judge(c, r, l[i:i + 30], HD, SG, rets=RETS, variadic=VARIADIC)


def run(c):
    engine_for()
    l = [x for g in (arguments, indirect, variadic, structs, params_) for x in (g(c.tier == 'thorough') if g is arguments else g())]
    n = 40
    c.pmap([l[i::n] for i in range(n)], task)
    for r, k in (('argument', 150), ('result', 200), ('call', 6), ('indirect', 25), ('variadic', 70), ('va_arg', 25), ('struct', 15), ('parameter', 60)): c.need(r, k)
