"""Programs that break the language's type and naming rules are refused with a diagnostic, and valid neighbours are not:
the compiler is analysed on one program per rule and per pair of types, and every path must end in the diagnostic exit
(status 1, message naming a cause) for the former and in object text for the latter."""
from emit import *
LEVEL = 'other'

TY = [('bool', 'bool', 0), ('char', 'char', 1), ('uchar', 'unsigned char', 1), ('short', 'short', 2), ('ushort', 'unsigned short', 2), ('int', 'int', 3), ('uint', 'unsigned', 3), ('long', 'long', 4), ('ulong', 'unsigned long', 4), ('llong', 'long long', 5), ('ullong', 'unsigned long long', 5), ('float', 'float', 6), ('double', 'double', 7), ('enum', 'enum e', 3),
      ('intp', 'int *', 'p'), ('uintp', 'unsigned *', 'p'), ('charp', 'char *', 'p'), ('voidp', 'void *', 'v'), ('intpp', 'int **', 'p'), ('sp', 'struct s *', 'p'), ('tp', 'struct t *', 'p'), ('fp', 'fp_t', 'p'), ('fq', 'fq_t', 'p'), ('fr', 'fr_t', 'p'), ('fs', 'fs_t', 'p'), ('pa3', 'pa3_t', 'p'), ('pa4', 'pa4_t', 'p'), ('qp', 'union u *', 'p'), ('ep', 'enum e *', 'x'), ('S', 'struct s', 's'), ('T', 'struct t', 's'), ('U', 'union u', 's')]
HT = 'enum e {E1,E2};\nstruct s{int a;}; struct t{int a;}; union u { int a; float f; }; typedef int (*fp_t)(int); typedef int (*fq_t)(double); typedef int (*fr_t)(int, int); typedef double (*fs_t)(int);\ntypedef int a3_t[3]; typedef a3_t *pa3_t; typedef int a4_t[4]; typedef a4_t *pa4_t;\n'
TYQ = [t for t in TY if t[0] in 'bool char int uint llong double enum intp charp voidp sp tp fp fq fr fs pa3 pa4 qp S T'.split()]


def expect(to, fr, ctx):
    """True: must be accepted, False: must be refused, None: left to the implementation (documented limits and leniency)"""
    (tn, _, t), (fn_, _, f) = to, fr
    if 'x' in (t, f): return True if tn == fn_ else None if 'intp' in (tn, fn_) or isinstance(t, str) and isinstance(f, str) else False
    ta, fa = isinstance(t, int), isinstance(f, int)
    if ctx == 'arg' and 's' in (t, f) or ctx == 'arg' and tn == fn_ and t == 's': return None
    if tn == fn_: return True
    if ta and fa:
        if ctx == 'cast': return True
        if 'enum' in (tn, fn_): return True if {tn, fn_} <= {'enum', 'int', 'long', 'llong', 'double'} and tn != 'enum' and f == 3 or fn_ == 'int' else None
        if t > f or f <= 3 and t <= 3 and ctx == 'assign' and fn_ not in ('uint',): return True
        return None
    if 's' in (t, f): return False
    if ta or fa:
        if ctx == 'cast':
            o = tn if ta else fn_
            if o in ('float', 'double'): return False
            return True if o in ('long', 'ulong') or o in ('int', 'uint') and fa else None
        return False
    if ctx == 'cast': return True
    if 'v' in (t, f): return True
    return False


SRC = {'assign': lambda a, b: 'void f(void) { %s a; %s b; a = b; }' % (a, b), 'initialise': lambda a, b: 'void f(void) { %s b; %s a = b; }' % (b, a),
       'arg': lambda a, b: 'int g(%s x); void f(void) { %s b; g(b); }' % (a, b), 'return': lambda a, b: '%s f(void) { %s b; return b; }' % (a, b),
       'cast': lambda a, b: 'void f(void) { %s b; (%s)b; }' % (b, a), 'element': lambda a, b: 'void f(%s *p, %s *q) { p[1] = *q; }' % (a, b), 'field': lambda a, b: 'struct z { char c; %s a; }; void f(struct z *p) { %s b; p->a = b; }' % (a, b),
       'conditional': None}

H = '''struct s { int a; double d; }; struct t { int a; }; union u { int a; float f; }; enum e { E1, E2 = 5 }; typedef int num;
int g0(void); int g1(int a); int g2(int a, double b); int gv(const char *f, ...); void gn(void); struct s gs(void); int ga[3]; int gi; struct s gst;
'''
D = 'int a; int b; double x; int *p; char *cp; void *vp; struct s s1; struct s s2; struct t t1; struct s *sp; struct t *tp; union u u1; int arr[3]; int arr2[4]; enum e en; '
GOOD = r"""a = 1;
a + 1;
(a);
a = (b);
g1(1);
g2(1, 2.0);
g2(1, 2);
gv("x");
gv("x", 1, 2.0, p);
gn();
a = g0();
g1(a);
s1 = gs();
s1 = s2;
sp = &s1;
sp = &s1, a = sp->a;
p = &arr[0];
p = &a;
vp = p;
p = vp;
vp = sp;
*p;
*p = a;
arr[1] = a;
p[a];
p[1] = 2;
s1.a = 1;
s1.d = x;
sp->a = a;
u1.a = 1;
u1.f = 1.5f;
&a;
&s1.a;
&arr[1];
-a;
-x;
~a;
!p;
!x;
!a;
++a;
a++;
++x;
x--;
p++;
--p;
arr[0]++;
s1.a--;
++*p;
(*p)++;
*p++;
a = a % b;
a << 1;
a & b;
p + 1;
1 + p;
p - 1;
p - p;
p == p;
p != NULL_;
p < p;
sp == sp;
p += a;
p -= 1;
x += a;
x *= 2;
a += 1;
a <<= 2;
(long)p;
(int *)vp;
(char *)p;
(void)a;
(int)x;
(float)a;
(struct s *)vp;
if (a) b = 1;
if (x) b = 1; else b = 2;
if (p != NULL_) b = 1;
while (a) a = a - 1;
for (;;) break;
for (a = 0; a < 3; ++a) continue;
for (int i = 0; i < 3; ++i) b = i;
do a = 1; while (b);
switch (a) { case 1: a = 1; break; case 2: a = 3; break; default: b = 1; }
switch (a) { case E1: case E2: a = 1; }
switch (a) { case 1 + 1: a = 1; }
switch (a) { case 1: while (a) { break; } break; case 'a': a = 1; }
while (a) { switch (a) { case 1: continue; } a = 0; }
{ goto l1; a = 1; l1: }
int q = 5;
int q; int r = q;
int q[3]; q[0] = 1;
int q; { int q; q = 1; }
struct s q; q.a = 1;
unsigned char q = 200;
char q = 'a';
double q = 1;
return a;
return 'a';
return g0();
a = sizeof(int);
a = sizeof(struct s);
a = (num)b;
a = 'a';
cp = "abc";
a = 010;
a = 0x1F;
x = 1e5;
x = 1.5e-3;
a = b ? 1 : 2;
p = a ? p : p;
a = b, b = a;
a ? gn() : gn();
en = E1;
a = en;
en = a;
a = E2 + 1;
num q = 1;
{ struct s q; q = s1; }
arr[E1] = 1;
a = *&b;
*&a = 1;
sp->d = s1.d;
(*sp).a = 1;
(&s1)->a = 1;
a = (&arr[0])[1];""".split('\n')
GTOP = ['int a; int f(void) { return a; }', 'int f(void); int f(void) { return 1; }', 'int f(void); int f(void); int g(void) { return f(); }', 'static int a = 1; int f(void) { return a; }',
        'struct q { int a; }; struct q z; int f(void) { return z.a; }', 'struct q; struct q *p; struct q { int a; }; int f(void) { return p->a; }', 'struct q { struct q *n; int v; }; int f(struct q *p) { return p->n->v; }', 'enum q { A1, A2 = 5, A3 }; int x = A3;', 'typedef int t1; t1 x = 1;', 'typedef struct q { int a; } q_t; q_t z;',
        'int a[3] = { 1, 2, 3 };', 'int a[3] = { 1 };', 'char s[3] = "abc";', 'char s[4] = "abc";', 'struct q { int a; double b; } z = { 1, 2.5 };', 'char *p = "x";', 'int *p = 0 ? 0 : (void *)0;' if 0 else 'double d = 1;', 'int x = 1 + 2 * 3;', 'unsigned char c = 255;', 'static_assert(1);', 'static_assert(sizeof(int) == 4, "int");', 'int main(void) { return 0; }', 'int main(int argc, char **argv) { return argc; }',
        'void f(void) { }', 'void f(void) { return; }', 'int f(int x) { if (x) return 1; else return 2; return 3; }', 'int f(int a, ...);', 'int (*fp)(int); int f(int x) { return (*fp)(x); }', '#define A 1\nint f(void) { return A; }', '#define M(a, b) (a + b)\nint f(void) { return M(1, 2); }', '#ifdef __WCPL__\nint x;\n#endif', '#if 0\nsyntax error here\n#endif\nint x;', 'union q { int a; float f; } z = { 1 };', 'static int f(void) { return 1; } int g(void) { return f(); }', 'int f(int x) { switch (x) { case 1: return 1; case 2: return 2; default: return 3; } return 0; }', 'int f(void) { int a; { int a; a = 1; } a = 2; return a; }', 'struct q { char c; struct { int x; int y; } in; } z; int f(void) { return z.in.y; }', 'const int k = 5; volatile int v; int f(const char *s) { return *s; }']
NULL_ = '#define NULL_ ((void*)0)\n'
BAD = r"""a = ;
a + ;
(a;
a b;
undeclared;
undeclared();
a = undeclared + 1;
undeclared = 1;
g1(undeclared);
g0(1);
g1();
g1(1, 2);
g2(1);
g2(1, 2.0, 3);
gv();
gv(1);
gn(1);
a = gn();
a = g0;
g1(p);
g1("x");
g1(s1);
g1(g0);
gi();
a();
p();
s1();
(1)();
5 = a;
(a + b) = 1;
g0() = 1;
a++ = 1;
-a = 1;
E1 = 2;
a = s1;
s1 = a;
s1 = t1;
s1 = sp;
sp = tp;
sp = s1;
p = cp;
p = a;
p = 5;
p = x;
a = p;
x = p;
a = x;
a = "x";
cp = 5;
arr = p;
arr = arr2;
g0 = g1;
*a;
*x;
*s1;
*vp;
a[0];
x[0];
s1[0];
p[p];
p[x];
p[s1];
vp[0];
a.a;
p->a;
s1->a;
sp.a;
s1.nofield;
sp->nofield;
t1.d;
u1.d;
gs().zz;
&5;
&(a + b);
&g0();
&E1;
&a++;
a = -p;
a = -s1;
a = ~x;
a = ~p;
a = !s1;
a = +p;
a = -"x";
++5;
++s1;
++(a + b);
5++;
s1++;
g0()++;
arr++;
a = a % x;
a = x % a;
a = (int)(x % x);
x << 1;
1 << x;
a & x;
x | a;
x ^ x;
p + p;
p * 2;
p / 2;
p % 2;
p & 1;
p | p;
p << 1;
p + x;
p - x;
p + s1;
s1 + 1;
s1 + s1;
s1 == s2;
s1 < s2;
s1 == 1;
s1 && 1;
1 || s1;
p == 1;
p == x;
p < 1;
p - cp;
sp - tp;
1 - p;
s1 ? a : b;
a ? s1 : t1;
a ? s1 : b;
a ? p : x;
a ? p : s1;
p += p;
p *= 2;
p += x;
s1 += 1;
a += p;
a += s1;
x %= 2;
x <<= 1;
x &= 1;
5 += a;
(int)s1;
(struct s)a;
(struct s)t1;
(int *)x;
(int *)s1;
(float)p;
(double)sp;
(struct s)p;
(struct s *)s1;
(int)g0;
if (s1) a = 1;
while (s1) a = 1;
for (; s1;) a = 1;
do a = 1; while (s1);
switch (x) { case 1: a = 1; }
switch (p) { case 1: a = 1; }
switch (s1) { case 1: a = 1; }
switch (a) { case b: a = 1; }
switch (a) { case 1: a = 1; case 1: b = 1; }
switch (a) { default: a = 1; default: b = 1; }
switch (a) { case 1.5: a = 1; }
switch (a) { case "x": a = 1; }
switch (a) { case E2: a = 1; case 5: b = 1; }
switch (a) { case 1: a = 1; case 3: b = 1; case 2 - 1: b = 2; }
case 1: a = 1;
default: a = 1;
break;
continue;
switch (a) { case 1: continue; }
goto nowhere;
{ l1: a = 1; } goto l1;
if (a) break;
int a;
double b;
int q = s1;
int q = p;
int *q = 1;
int *q = x;
struct s q = t1;
struct unknown q;
struct s q[];
unknown_t q;
int q, q;
void q;
int q[0 - 1];
int q[b];
int q[x];
int q[1.5];
int q(int) = 0;
int q = ;
int q r;
int 5q;
int if;
int f2(void) { return 1; }
return;
return p;
return s1;
return "x";
return x;
else a = 1;
if a) b = 1;
if (a b = 1;
while (a b = 1;
do a = 1; while (a)
for (a; b) a = 1;
a = (b;
a = b);
a = b]
p[0;
{ a = 1;
sizeof;
sizeof(unknown_t);
a = sizeof(struct unknown);
a = (unknown_t)b;
a = 'ab
a = "abc
a = 08;
a = 0x;
a = 1e;
a = 1.5.2;
a = 12ab;
a = 0x1g;
a @ b;
a = `b`;
a = $;
a = #b;
a = 99999999999999999999;
a = '';
a = '\q';
"a" = "b";
a = sizeof(void);
a = sizeof(g0);
p = &5;
typedef int zz; zz = 5;
a = num;
num + 1;
a ? b;
a ? b : ;
a ?: b;
a : b;
a ->;
s1.;
s1.5;
g1(,1);
g1(1;
(int a;
(int)(;
a = {1};
static int z9;
extern int z9;
asm(i32.nosuch);
asm(i32.add, 5 5);
*5;
s1 = 1;
sp->a.b;
a = (1, s1);
a = s1 ? 1 : 2;
return sp;
g2(1, p);
g2(s1, 1.0);
gv(1, 2);
vp + 1;
vp - vp;
vp++;
double q[2] = { "x" };
int q[2] = { 1, 2, 3 };
if (a) else b = 1;
switch (a) { a = 1; }
switch (a) { case 1: a = 1; break; case x: b = 1; }
for (;;) { continue 1; }
do { a = 1; } until (a);
goto 5;
goto;
struct s q; q.d.x = 1;
arr[0][0];
arr.a;
en = p;
u1 = s1;
*p = s1;
*p = cp;
sp->a = sp;
arr[0] = p;
a = b = p;
p = vp = 1;
p = a ? p : cp;
g1(a ? p : p);
a = sizeof s1.zz;
a = offsetof(struct s, zz);
int f3(int z) { return z; } f3(1);
typedef int a;
undeclared_t *q;
a = (b + 1;
a = ((b);
p[1 = 2;
a + b = 1;
(a, b) = 1;
(a ? a : b) = 1;
!a = 1;
&a = p;
gn() + 1;
a = (int)gn();
-gn();
g1(gn());
return gn();
(void)a + 1;
if (gn()) a = 1;
""".strip().split("\n")
TOP = [
    'int a; double a;',
    'int a; int a(void);',
    'int f(void) { return 1; } int f(void) { return 2; }',
    'int f(void); double f(void);',
    'int f(int a); int f(double a);',
    'int f(int a); int f(int a, int b) { return a; }',
    'int f(int a, int a) { return a; }',
    'int x = 1; int x = 2;',
    'struct q { int a; }; struct q { int b; };',
    'enum q { A1, A1 };',
    'enum q { A1 }; enum r { A1 };',
    'enum q { A1 }; int A1;',
    'int A2; enum q { A2 };',
    'enum q { A1 = x };',
    'enum q { A1 = 1.5 };',
    'typedef int t1; typedef double t1;',
    'typedef int t1; int t1;',
    'int a[0 - 1];',
    'int a[];',
    'int a[x];',
    'int a[2] = { 1, 2, 3 };',
    'int a[2] = 5;',
    'int a = { 1, 2 };',
    'int a = "x";',
    'int a = 1.5;',
    'int *p = 5;',
    'int *p = 1.5;',
    'char s[2] = "abc";',
    'int a[3] = "abc";',
    'struct q { int a; int b; } z = { 1, 2, 3 };',
    'struct q { int a; } z = 5;',
    'int x; int y = x;',
    'int f(void); int y = f();',
    'int y = 1 / 0;',
    'int y = undeclared;',
    'int y = "a" + 1;',
    'int y = &undeclared;',
    'int f(void) { return 1;',
    'int f(void) { return 1; } }',
    'int f(void) return 1;',
    'int f(a) int a; { return a; }',
    'int f(void)',
    'int f( { }',
    'int x',
    'int x y;',
    'x;',
    'return 1;',
    'if (1) ;',
    '1 + 2;',
    '{ }',
    'int (;',
    'int *;',
    'int a[;',
    'int a[2;',
    'int a[2}; ',
    'struct { int a;',
    'struct q { int a };',
    'enum q { A1, , A2 };',
    'int f(void) { return g(); }',
    'int f(void) { int x = y; return x; }',
    'int main(void) { return main(1); }',
    'void f(void) { return 1; }',
    'int f(void) { return; }',
    'int f(void) { }',
    'int f(int x) { if (x) return 1; }',
    'int f(void, int a);',
    'int f(int a, ...) { return b; }',
    'int f(struct q { int a; } z);',
    'int a[3](void);',
    'static_assert(0);',
    'static_assert(1 == 2, "no");',
    '#include <nosuch.h>',
    '#include "nosuch.h"',
    '#nosuch',
    '#define',
    '#define F(a',
    '#define F(a) ## a',
    '#if',
    '#ifdef A',
    '#else',
    '#endif',
    '#error x',
    'int f(void) { #define A 1\n return A; }',
    '#define M(a, b) (a + b)\nint f(void) { return M(1); }',
    '#define M(a, b) (a + b)\nint f(void) { return M(1, 2, 3); }',
    '"unterminated',
    "'unterminated",
    "int x = 'a",
    'unsigned float x;',
    'long float x;',
    'short double x;',
    'signed unsigned x;',
    'short long x;',
    'unsigned struct s { int a; } x;',
    'void x;',
    'void a[3];',
    'static extern int x;',
    'typedef static int x;',
    'register int x;',
    'auto int x;',
    'inline int f(void) { return 1; }',
    'int f(register int x) { return x; }',
    'struct undefined_s x;',
    'extern struct undefined_s *x; int f(void) { return x->a; }',
    'extern void x;',
    'int x : 3;',
    'struct q { int a : 3; };',
    'int *p = &5;',
    'int a[2] = { "x", "y" };',
    'struct { int a; } z = { 1.5 };',
    'int a[2][2] = { { 1, 2, 3 } };',
    'char *p[2] = { "a", "b", "c" };',
    'double d = &a;',
    'int f(void); int f = 1;',
    'int a; struct a { int x; }; int a(int x);',
    'int f(int a, int b); int g(void) { return f(1); }',
    'int f(int a); int g(void) { return f(1, 2); }',
    'void f(void); int g(void) { return f(); }',
    'int f(void) { return 1; } double f(void);',
    'struct q *p; int f(void) { return p->x; }',
    'union q { int a; } z = { 1, 2 };',
    'enum q { A9 = 1 }; int f(void) { A9 = 2; return 1; }',
    'int f(void) { return sizeof(struct nope); }',
    'int f(int x) { switch (x) { case 1: return 1; case 1: return 2; } return 3; }',
    'int f(void) { for (;;) { } break; return 1; }',
    'int f(struct q *p) { return *p; }',
    'float a = "x";',
    'long a = "x";',
    'int a[1.0];',
    'enum q { A8 = 1.0 };',
    'int f(int x) { switch (x) { case 1.0: return 1; } return 2; }']


def verdict(src):
    """True accepted, False refused with a diagnostic, text: neither"""
    try: compile_text(src); return True, 'accepted'
    except Rejected as e:
        if e.kind == 'exit' and e.value == ('exit', (1,)) and e.diag.strip(): return False, 'refused: ' + e.diag.replace('\n', ' ')[:100]
        return None, '%s %s without a diagnostic exit: %s' % (e.kind, e.value, e.diag[:100])


def ob(c, rule, key, src, want):
    try: v, how = verdict(src)
    except Cut as e: c.undecided(rule, key, e); return
    c.ob(rule, key, v is want, '%s program %s: %s' % ('valid' if want else 'invalid', how, src.replace('\n', ' ')[-160:]), 'c.c:compile_module_to_wat', 'accepted' if want else 'refused with a diagnostic', how)


def key(s): return s.strip().replace(' ', '.').replace('\n', '|') or 'empty'


def stmt(s): return H + NULL_ + 'int fn(void) { %s%s return 0; }\n' % (D, s)


def task(c, it):
    k = it[0]
    if k == 'conv':
        _, ctx, a = it
        good = []
        for b in TYQ if c.tier == 'quick' else TY:
            w = expect(a, b, {'initialise': 'assign', 'element': 'assign', 'field': 'assign', 'return': 'return'}.get(ctx, ctx))
            if w is False and c.tier == 'quick' and ctx != 'assign' and {a[0], b[0]} & {'bool', 'char', 'uint', 'llong', 'enum'}: continue
            if w is False: ob(c, 'refused conversion', '%s:%s<-%s' % (ctx, a[0], b[0]), HT + SRC[ctx](a[1], b[1]), False)
            elif w: good.append(b)
        src = HT + '\n'.join(re_name(SRC[ctx](a[1], b[1]), i) for i, b in enumerate(good))
        many(c, 'accepted conversion', [('%s:%s<-%s' % (ctx, a[0], b[0]), re_name(SRC[ctx](a[1], b[1]), i)) for i, b in enumerate(good)], HT)
    elif k == 'bad':
        for s in it[1]: ob(c, 'refused statement', key(s), stmt(s), False)
    elif k == 'top':
        for s in it[1]: ob(c, 'refused declaration', key(s), H + s + '\n', False)
    elif k == 'good':
        many(c, 'accepted statement', [(key(s), 'int fn%d(void) { %s%s%s return 0; }' % (i, D, s, '' if not s.startswith('goto end') else '')) for i, s in enumerate(it[1])], H + NULL_)
    elif k == 'gtop':
        for s in it[1]: ob(c, 'accepted declaration', key(s), s + '\n', True)


def re_name(s, i): return s.replace('f(', 'f%d(' % i, 1).replace('struct z', 'struct z%d' % i).replace('g(', 'g%d(' % i)


def many(c, rule, l, head):
    """valid pieces in one source; one by one if that is refused"""
    if not l: return
    try: v, how = verdict(head + '\n'.join(t for _, t in l) + '\n')
    except Cut as e: v, how = None, str(e)
    if v is True:
        for k, _ in l: c.ob(rule, k, True)
    elif len(l) == 1: ob(c, rule, l[0][0], head + l[0][1] + '\n', True)
    else:
        h = len(l) // 2
        many(c, rule, l[:h], head); many(c, rule, l[h:], head)


def run(c):
    engine_for()
    ctxs = ['assign', 'arg', 'return', 'cast'] + (['initialise', 'element', 'field'] if c.tier == 'thorough' else [])
    g = [('conv', x, a) for x in ctxs for a in (TYQ if c.tier == 'quick' else TY)]
    g += [('bad', BAD[i::40]) for i in range(40)] + [('top', TOP[i::20]) for i in range(20)] + [('good', GOOD[i::8]) for i in range(8)] + [('gtop', GTOP[i::8]) for i in range(8)]
    c.pmap(g, task)
    for r, n in (('refused conversion', 350), ('accepted conversion', 200), ('refused statement', 220), ('refused declaration', 80), ('accepted statement', 100), ('accepted declaration', 30)): c.need(r, n)
