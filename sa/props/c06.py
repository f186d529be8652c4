"""For every binary operator and every pair of arithmetic operand types, the compiler is analysed on a function that
applies the operator to two parameters; the WebAssembly code it emits is interpreted abstractly with the operands
unknown and must compute the same term as the C standard's usual arithmetic conversions and operator semantics, for all
operand values; the type of the result is observed by converting it to double."""
from emit import *
LEVEL = 'other'
OPS = ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
IOPS = ['%', '&', '|', '^', '<<', '>>']


def task(c, ab):
    A, B = ab
    fs = []
    for k, op in enumerate(OPS + (IOPS if A.isint() and B.isint() else [])):
        f = Fun('f%d' % k, DOUBLE, [('a', A), ('b', B)], [Return_(Cast(DOUBLE, Bin(op, Var('a'), Var('b'))))])
        f.key = ('%s_%s_%s' % (A, op, B)).replace(' ', '.'); fs.append(f)
    judge(c, 'binary', fs)
    c.seen('operand types', '%s, %s' % (A, B))


def run(c):
    engine_for()
    c.pmap([(A, B) for A in SCALARS for B in SCALARS], task)
    c.need('binary', 2500)
