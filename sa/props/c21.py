"""Character classes: for EOF and every unsigned char value, each function of ctype.h is interpreted abstractly with the
value unknown; its truth (or mapped character) must be the one of the "C" locale in every class of values."""
from lib import *
import string
LEVEL = 'other'

UP = set(map(ord, string.ascii_uppercase)); LO = set(map(ord, string.ascii_lowercase)); DI = set(map(ord, string.digits))
AL = UP | LO
SP = {9, 10, 11, 12, 13, 32}
PR = set(range(32, 127))
SETS = {'isalpha': AL, 'isupper': UP, 'islower': LO, 'isdigit': DI, 'isalnum': AL | DI, 'isxdigit': DI | set(map(ord, 'abcdefABCDEF')), 'isspace': SP,
        'isblank': {9, 32}, 'isprint': PR, 'isgraph': PR - {32}, 'iscntrl': set(range(32)) | {127}, 'ispunct': PR - {32} - AL - DI, 'isascii': set(range(128))}


def char(x, lo, hi):
    """an int with value lo..hi"""
    k = x.sym('c', 9, range(hi - lo + 1))
    return binop('add', 32, zext(k, 9, 32), lo & M(32)), k


def run(c):
    img = image()
    ex = [n.split(':')[1] for n in img.funcs if n.startswith('$ctype:')]
    for n in ex: c.seen('functions', n)
    for f, s in SETS.items():
        def sc(x, f=f, s=s):
            v, k = char(x, -1, 255)
            r = x.call('ctype:' + f, v)
            x.test('%s(c)' % f, lambda r, v: bool(r) == (sx(v, 32) in s), r, v)
        judge(c, 'class', f, sc, 'lib/src/ctype.c:' + f)
    for f, s, d in (('toupper', LO, -32), ('tolower', UP, 32)):
        def sc(x, f=f, s=s, d=d):
            v, k = char(x, -1, 255)
            r = x.call('ctype:' + f, v)
            x.test('%s(c)' % f, lambda r, v: sx(r, 32) == sx(v, 32) + (d if sx(v, 32) in s else 0), r, v)
        judge(c, 'mapping', f, sc, 'lib/src/ctype.c:' + f)
    # the header: a macro of the same name must mean the same
    c.need('class', 13); c.need('mapping', 2)
