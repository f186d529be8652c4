"""Grouping of expressions: how the compiler splits C source into tokens and groups operators.  The compiler is analysed
on functions whose bodies return an expression written with as few parentheses as possible; the emitted code must compute
the term (and the memory effects) that the expression has when it is tokenised and grouped by the reference lexer and
precedence-climbing parser below, which were written from the C grammar."""
import random, re
from emit import *
LEVEL = 'other'

PUNCT = sorted('... >>= <<= == != <= >= && || ++ -- -> += -= *= /= %= &= |= ^= << >> + - * / % & | ^ ~ ! < > = ? : , ; ( ) [ ] .'.split(), key=len, reverse=True)
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}
ASN = ['=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']
TYPES = {'char': CHAR, 'int': INT, 'unsigned': UINT, 'short': SHORT, 'double': DOUBLE, 'float': FLOAT, 'long': LONG}


def lex(s):
    s = s.replace('\\\n', '')
    out = []; i = 0
    while i < len(s):
        if s[i].isspace(): i += 1; continue
        if s.startswith('/*', i): i = s.index('*/', i + 2) + 2; continue
        if s.startswith('//', i): i = (s + '\n').index('\n', i); continue
        m = re.match(r'[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+', s[i:])
        t = m.group(0) if m else next(p for p in PUNCT if s.startswith(p, i))
        out.append(t); i += len(t)
    return out


class P:
    def __init__(self, s, funs): self.t = lex(s) + ['']; self.i = 0; self.funs = funs

    def pk(self): return self.t[self.i]

    def nx(self): self.i += 1; return self.t[self.i - 1]

    def eat(self, t): assert self.nx() == t, (self.t, self.i, t)

    def all(self):
        e = self.expr(); assert self.pk() == '', self.t
        return e

    def expr(self):
        e = self.assign()
        while self.pk() == ',': self.nx(); e = Bin(',', e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        if self.pk() in ASN: o = self.nx(); return Assign(o, e, self.assign())
        return e

    def cond(self):
        e = self.binary(1)
        if self.pk() == '?':
            self.nx(); a = self.expr(); self.eat(':')
            return Cond(e, a, self.cond())
        return e

    def binary(self, p):
        e = self.cast()
        while PREC.get(self.pk(), 0) >= p:
            o = self.nx(); e = Bin(o, e, self.binary(PREC[o] + 1))
        return e

    def cast(self):
        if self.pk() == '(' and self.t[self.i + 1] in TYPES:
            self.nx(); t = TYPES[self.nx()]
            while self.pk() == '*': self.nx(); t = ptr(t)
            self.eat(')'); return Cast(t, self.cast())
        return self.unary()

    def unary(self):
        t = self.pk()
        if t in ('++', '--'): self.nx(); return IncDec(t, self.unary(), 0)
        if t == '&': self.nx(); return Addr(self.cast())
        if t == '*': self.nx(); return Star(self.cast())
        if t in ('+', '-', '~', '!'): self.nx(); return Un(t, self.cast())
        return self.postfix()

    def postfix(self):
        t = self.nx()
        if t == '(': e = self.expr(); self.eat(')')
        elif t[0].isdigit(): e = Lit(int(t, 8 if re.fullmatch(r'0\d+', t) else 0), INT, t)
        else: e = Var(t)
        while True:
            t = self.pk()
            if t == '[': self.nx(); i = self.expr(); self.eat(']'); e = Index(e, i)
            elif t == '(':
                self.nx(); a = []
                while self.pk() != ')':
                    a.append(self.assign())
                    if self.pk() == ',': self.nx()
                self.nx(); ps, r = self.funs[e.name]; e = Call(e.name, ps, r, a)
            elif t == '->': self.nx(); e = Arrow(e, self.nx())
            elif t == '.': self.nx(); e = Dot(e, self.nx())
            elif t in ('++', '--'): self.nx(); e = IncDec(t, e, 1)
            else: return e


class Raw:
    """the text goes to the compiler as it is; the meaning is that of the reference parse"""

    def __init__(self, text, funs): self.text = text; self.e = P(text, funs).all()

    def c(self): return self.text

    def ev(self, env): return self.e.ev(env)


N = struct('n', [('f', INT), ('c', CHAR)])
PN = ptr(N)
Q = struct('q', [('k', INT), ('p', ptr(INT)), ('n', N), ('a', array(INT, 3))])
FUNS = {'g': ([INT], INT), 'h': ([INT, INT], INT), 'pf': ([INT], ptr(INT)), 'sf': ([INT], PN)}
HEAD2 = HEAD + '%s\n%s\nint g(int); int h(int, int); int *pf(int); struct n *sf(int);\n' % (structdef(N), structdef(Q))
VARS = {'a': INT, 'b': INT, 'c': INT, 'd': INT, 'e': INT, 'u': UINT, 'x': DOUBLE, 'p': ptr(INT), 'q': ptr(INT), 'r': ptr(ptr(INT)), 's': PN, 't': ptr(Q), 'k': ptr(CHAR)}


def fn(text, ret=None):
    e = Raw(text, FUNS)
    used = [v for v in VARS if v in lex(text)]
    f = Fun('f', ret or DOUBLE, [(v, VARS[v]) for v in used], [])
    if ret is None: e0 = e; f.stmts = [Return_(Outer(e0))]
    else: f.stmts = [Return_(e)]
    f.key = text.replace('\\\n', '<splice>').replace('\n', '<nl>').replace('\t', '<tab>').replace(' ', '.')
    return f


class Outer:
    """(double)(text)"""

    def __init__(self, e): self.e = e

    def c(self): return '(double)(' + self.e.c() + ')'

    def ev(self, env):
        v, t = self.e.ev(env)
        return conv(env, v, t, DOUBLE), DOUBLE


B = list(PREC)


def pairs():
    for o1 in B:
        yield [('pair', fn('a %s b %s c' % (o1, o2))) for o2 in B]


def triples(n, seed=1):
    r = random.Random(seed); l = []
    for i in range(n): l.append(('triple', fn('a %s b %s c %s d' % tuple(r.choice(B) for _ in range(3)))))
    return [l[i:i + 18] for i in range(0, len(l), 18)]


def prefix():
    l = []
    for o in B:
        for u in ('-', '~', '!', '+'):
            l.append(fn('%s a %s b' % (u, o))); l.append(fn('a %s %s b' % (o, u)))
        l.append(fn('(char) a %s b' % o)); l.append(fn('a %s (char) b' % o)); l.append(fn('(unsigned) a %s b' % o))
        l.append(fn('* p %s b' % o)); l.append(fn('a %s * p' % o))
        l.append(fn('++ a %s b' % o)); l.append(fn('a %s -- b' % o)); l.append(fn('a ++ %s b' % o)); l.append(fn('a %s b --' % o))
        l.append(fn('g ( a ) %s b' % o)); l.append(fn('p [ a ] %s b' % o)); l.append(fn('a %s p [ b ]' % o)); l.append(fn('a %s s -> f' % o)); l.append(fn('p [ a %s b ]' % o if o not in CMP and o not in ('&&', '||') else 'p [ ( a %s b ) ]' % o))
        l.append(fn('g ( a %s b )' % o)); l.append(fn('h ( a %s b , c )' % o)); l.append(fn('( a %s b ) * c' % o)); l.append(fn('c * ( a %s b )' % o)); l.append(fn('- ( a %s b )' % o)); l.append(fn('(char) ( a %s b )' % o))
    for u in ('-', '~', '!', '+'):
        for v in ('-', '~', '!', '+'): l.append(fn('%s %s a' % (u, v)))
        for w in ('p [ a ]', 's -> f', '* p', '( * s ) . f', 'g ( a )', '(char) a', 't -> n . c', 't -> p [ a ]', '* t -> p', 'a ++', '++ a', '* p ++', 'r [ a ] [ b ]', '* r [ a ]', '* * r', '( * r ) [ a ]', 'pf ( a ) [ b ]', '* pf ( a )', 'sf ( a ) -> f', '(unsigned) a', '(char) - a'):
            l.append(fn('%s %s' % (u, w)))
    return [('prefix', f) for f in l]


def postfix():
    ts = '''* p ++|* ++ p|++ * p|( * p ) ++|-- * p|( * p ) --|* p --|* -- p|* p ++ + a|a + * p ++|* r ++ == p|* * r ++|* ( * r ) ++|* ++ * r|** r|- ** r|
    * t -> p|( * t ) . k|( * t -> p ) ++|* t -> p ++|++ t -> k|t -> k ++|t -> n . f --|-- t -> n . f|t -> a [ b ]|t -> a [ b ] ++|++ t -> a [ b ]|( * t ) . a [ 1 ]|t -> p - q + a|& * p == q|& p [ a ] == q|! ( & * p == q )|& t -> n . f == q|& ( * t ) . k == q|& s -> f == q|& t -> n == s|( & t -> n ) -> f|* & t -> k|t -> p [ a ]|* t -> p ++ + b|
    ( * t ) . n . c|( * t ) . a [ a ]|( * t ) . p [ a ]|( & * s ) -> f|* pf ( a )|pf ( a ) [ b ]|* pf ( a ) + b|sf ( a ) -> f|sf ( a + b ) -> f * c|g ( a ) + g ( b )|g ( g ( a ) )|h ( a , b )|h ( g ( a ) , b + c )|h ( ( a , b ) , c )|
    (char) p [ a ]|(char) * p|(char) s -> f|(char) g ( a )|(char) - a|(char) ~ a|(char) ! a|- (char) a|! (char) a|~ (char) a|(char) (short) a|(unsigned) (char) a|(char) a ++|(char) ++ a|(char) ( a + b )|(unsigned) a / b|a / (unsigned) b|(unsigned) ( a / b )|(double) a / b|(double) ( a / b )|a / (double) b|(int) x * a|(int) ( x * a )|* (int *) k|* (int *) k ++|( (int *) k ) [ a ]|(int) k [ a ]|* (int *) ( k + a )|* ( (int *) k + a )|* (char *) p|(char *) p + a == k|(char *) ( p + a ) == k|
    * p + a|* ( p + a )|* p * a|a * * p|p [ a ] + b|p [ a + b ]|p [ a ] [ & b - & b ]|- p [ a ]|- * p|& p [ a ] - q|& p [ a ] == q|p - q|p - q - a|p + a - q|* ( p + a ) + b|* p + * q|* p - - * q|* p * * q|* p && * q|a & * p|a && * p|s ++ -> f|s -> f ++|( ++ s ) -> f|( * s ++ ) . f|( * ++ s ) . f|p ++ [ a ]|* p ++ * * q ++|~ * p ++|! * p ++|- * p ++|p == q && a|a + * p [ & b - & b ] '''
    l = [x.strip() for x in ts.replace('\n', '').split('|')]
    return [('postfix', fn(x)) for x in l if x and '& b' not in x]


def conditional():
    l = []
    for o in B: l += ['a %s b ? c : d' % o, 'a ? b %s c : d' % o, 'a ? b : c %s d' % o, 'a %s ( b ? c : d )' % o, '( a ? b : c ) %s d' % o]
    l += ['a ? b : c ? d : e', 'a ? b ? c : d : e', '( a ? b : c ) ? d : e', 'a ? b : ( c ? d : e )', 'a || b ? c : d || e', 'a ? b , c : d', 'a ? ( b , c ) : d', '! a ? b : c', '- a ? b : c', 'a ? - b : ~ c', 'a ++ ? b : c', '* p ? b : c', 'a ? * p : * q', '* ( a ? p : q )',
          '( a ? p : q ) [ b ]', '(char) a ? b : c', '(char) ( a ? b : c )', 'a ? (char) b : c', 'a == b ? c : d == e', 'a ? b : c , d', 'a , b ? c : d', 'a ? b = c : d', 'a ? ( b = c ) : ( d = e )', 'a = b ? c : d', 'a = b || c', 'a += b ? c : d', 'g ( a ? b : c )', 'h ( a ? b : c , d )', 'p [ a ? b : c ]', 'a ? b : c ? d : e ? a : b', 'a ? b ? c ? d : e : a : b', 'a<b?a:b', 'a?b:c', 'a?b:-c', 'a?-b:c', 'a? b :c']
    return [('conditional', fn(x)) for x in l]


def assignment():
    l = []
    for o in ASN:
        l += ['a %s b' % o, 'a %s b = c' % o, 'a %s b += c' % o, 'a = b %s c' % o, '* p %s a' % o, '* p ++ %s a' % o, 'p [ a ] %s b' % o, 's -> f %s a' % o, 't -> n . f %s a' % o, '( a %s b ) + c' % o, 'a %s b , a' % o, 'a %s ( b , c )' % o, 'a %s b ? c : d' % o, 'a %s - b' % o, '! ( a %s b )' % o]
        l += ['a %s b %s c' % (o, x) for x in B]
    l += ['a = b = c', 'a = b = c = d', 'a = ( b = c ) + d', 'p = q', '* r = p', '* ( a ? p : q ) = b', 'a , b , c', '( a , b ) + c', 'a = b , c', '( a = b , c )', 'a ++ , b', 'a = ++ b', 'a = b ++', 'a = * p ++', '* p ++ = * q ++', '* p = * q', 'p [ a ] = q [ b ]', 'a = ! b', 'p += a', 'p -= a', 'p ++ == q', '( p += a ) == q', 'a = (int) ( p - q )']
    l = [x for x in l if not x.startswith(('p = ', '* r', 'p += ', 'p -= '))] + ['( p = q ) == q', '( * r = p ) == q', '( p += a ) == q', '( p -= a ) == q']
    return [('assignment', fn(x)) for x in l]


def munch():
    l = ['a+++b', 'a---b', 'a+ ++b', 'a- --b', 'a- -b', 'a+ +b', 'a-+b', 'a+-b', 'a++ +b', 'a-- -b', 'a++ + ++b', 'a-- - --b', 'a+++ ++b', 'a--- --b', 'a--->f'.replace('a', 's'), 's->f--', 'a-->b', 'a++<b', 'a<-b', 'a>-b', 'a<=b', 'a< =b'.replace('< =', '<='), 'a<<b', 'a<<=b', 'a>>b', 'a>>=b', 'a<b<c', 'a>b>c', 'a>=b', 'a>=-b', 'a<=-b', 'a==-b', 'a!=-b', 'a=-b', 'a=~b', 'a=!b', 'a= !b', 'a=+b', 'a-=-b', 'a+=+b', 'a-=--b', 'a*=-b',
         'a&b', 'a&&b', 'a& &b'.replace('& &b', '& b'), 'a|b', 'a||b', 'a|=b', 'a&=b', 'a^=b', 'a^b', 'a&&!b', 'a&~b', 'a|~b', 'a||!b', 'a!=b', '!a==b', 'a==!b', 'a/ *p', 'a* *p', 'a**p', 'a***r', 'a&*p', 'a&&*p', 'a%-b', 'a/-b', 'a*-b', '*p++', '*p--', '++*p', '--*p', '*++p', '(*p)++', '*p+++a', '*p---a', 'a?b:c', 'a?-b:~c', 'a?*p:*q', 'a=b', 'a==b', 'a = b==c', 'a<b==c>d', 'a<<b<c', 'a<b<<c', 'a>>b>c', 'a-1', 'a -1', 'a - 1', 'a+1', '-1+a', '1-a', '1--a'.replace('1--a', '1- -a'), 'a-0x1f', 'a-0xe+b', 'a*010', 'a/2', 'a%2', '1<<a', 'a>>1', 'a==1', 'a<1', '-a', '- -a', '-(-a)', '!!a', '~~a', '- - -a', '!-a', '-!a', '~-a', '-~a', '+-a', '-+a', '(a)', '((a))', '((a)+(b))', '(a)+b', '(a)-b', '(a)*b', '(a)&b', '(a)&&b', '(a)+-b', '-(a)', '(char)-a', '(char)+a', '(char)~a', '(char)*p', '(char)(a)', '(char)(a)+b', '(char)a+b', '(char)a*b', '(char)(a+b)', '(int)x', '(int)x+a', '-(int)x', '(unsigned)a>>b', '(unsigned)(a>>b)', '(unsigned)a<b']
    sp = ['a /* x */ - /* y */ b', 'a/* x */-/* y */b', 'a//z\n-b', 'a\n-\nb', 'a\t-\tb', 'a -\\\n- b'.replace('- b', ' b'), 'a \\\n- b', 'a+\\\n+b'.replace('+b', '+ +b'), 'a<\\\n<b', 'a -/**/-b', 'a/**/+/**/+b', 'a +/* + */ b', 'a /* * / */ / b', 'a /***/ * b', 'a /* // */ + b', 'a // /*\n + b', 'a /*\n*/ + b', 'a<<\\\n=b', 'a&\\\n&b', 'a-\\\n-', 'a /* " */ + b', "a /* ' */ + b", 'a\r\n+ b', 'a\f+\vb'.replace('\f', ' ').replace('\v', ' '), 'a-/*x*/1', 'a/ /*x*/b', 'a+b//c', 'a+b//\n*c', 'a+b/*c*/*d']
    sp += ['a<b?a:b', 'a>b?a:b', 'a?b:c?d:e', 'g(a)-b', 'g(-a)', 'g(a)*g(b)', 'h(a,b)', 'h(a,-b)', 'h((a,b),c)', 'h(a-b,a+b)', 'p[a]-b', 'p[-a]', 'p[a-b]', 'p[a]*q[b]', 's->f-a', 's->f*s->f', '-s->f', '!s->f', '~s->f', 's->f--', '--s->f', 't->n.f', '-t->n.f', 't->n.f-a', 't->a[b]', '-t->a[b]', 't->p[a]', '*t->p', '(*t).k', '(*t).n.f', '*t->p++', '(*t->p)++', 'a,b', '(a,b)', 'a,b,c', '(a,b)+c', 'a=b,c']
    return [('munch', fn(x)) for x in dict.fromkeys(l + [x + ('\n' if '//' in x.split('\n')[-1] else '') for x in sp])]


PX = {'u': 11}


def gen(r, depth, lv):
    """a random expression; lv: names that still may be changed"""
    if depth == 0: return r.choice('abcde'), 20
    k = r.random()
    if k < .58:
        o = r.choice(B); p = PREC[o]
        x, px = gen(r, depth - 1, lv); y, py = gen(r, r.randrange(depth), lv)
        if r.random() < .5 and depth < 3: x, px, y, py = y, py, x, px
        return (x if px >= p else '(%s)' % x) + ' %s ' % o + (y if py > p else '(%s)' % y), p
    if k < .70:
        o = r.choice(['-', '~', '!', '(char) ', '(unsigned) ', '(short) ']); x, px = gen(r, depth - 1, lv)
        return o + ' ' + (x if px >= 11 else '(%s)' % x), 11
    if k < .82:
        xs = [gen(r, r.randrange(depth), lv) for _ in range(3)]
        q, a, z = xs
        return '%s ? %s : %s' % (q[0] if q[1] > 0 else '(%s)' % q[0], a[0], z[0] if z[1] >= 0 else '(%s)' % z[0]), 0
    if k < .88:
        x, px = gen(r, depth - 1, lv); return 'p[%s]' % (x if px > 7.5 else '(%s)' % x), 20
    if k < .94 and lv:
        v = lv.pop(); x, px = gen(r, depth - 1, [])
        return '%s %s %s' % (v, r.choice(ASN), x if px >= -1 else '(%s)' % x), -1
    x, px = gen(r, depth - 1, lv); return 'g(%s)' % (x if px >= -1 else '(%s)' % x), 20


def randoms(n, seed):
    r = random.Random(seed); l = []; seen = set()
    while len(l) < n:
        s, _ = gen(r, 3, [])
        if s in seen or 'g(' in s and 'unsigned' in s or len(lex(s)) < 7 or len(lex(s)) > 24 or s.count('?') + s.count('&&') + s.count('||') > 4: continue
        seen.add(s); l.append(('random', fn(s)))
    return [l[i:i + 12] for i in range(0, len(l), 12)]


def groups(tier):
    g = list(pairs()) + triples(180 if tier == 'quick' else 1200)
    for f in (prefix, postfix, conditional, assignment, munch):
        l = f(); g += [l[i:i + 24] for i in range(0, len(l), 24)]
    g += randoms(240 if tier == 'quick' else 2400, 7)
    return g


SG = {'$x:' + n: sigof(ps, r) for n, (ps, r) in FUNS.items()}


def task(c, fs):
    rules = {}
    for i, (r, f) in enumerate(fs): f.name = 'fn%d' % i; rules.setdefault(r, []).append(f)
    for r, l in rules.items(): judge(c, r, l, HEAD2, SG, rets={n: r_ for n, (ps, r_) in FUNS.items()})


def run(c):
    engine_for()
    c.pmap(groups(c.tier), task)
    for r, n in (('pair', 300), ('triple', 150), ('prefix', 450), ('postfix', 110), ('conditional', 110), ('assignment', 330), ('munch', 180), ('random', 200)): c.need(r, n)
