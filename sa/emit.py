"""Obligations of the form: the code emitted for a C construct means what C says it means."""
from cc import *
from csem import *
import csem, wcmp
from wcmp import Diff, Undecided

HEAD = '#include <stdbool.h>\n'


def judge(c, rule, funs, head=HEAD, sigs=None, files=(), single=False, keys=None, setup=None, mayreject=(), **kw):
    """compile the functions in one module (or one by one if that is rejected) and compare each with its reference"""
    try:
        txt = compile_text(head + '\n'.join(f.c() for f in funs) + '\n', files)
    except Rejected as e:
        if len(funs) == 1:
            f = funs[0]
            if f.key in mayreject: return
            if head not in _heads:
                try: compile_text(head, files); _heads[head] = True
                except (Rejected, Cut): _heads[head] = False
            if not _heads[head]: c.undecided(rule, f.key, 'declarations are rejected: %s' % e); return
            c.ob(rule, f.key, False, 'a valid program is rejected: %s: %s' % (f.c(), str(e)[-160:]), 'c.c:compile_module_to_wat', 'accepted', 'rejected')
            return
        h = len(funs) // 2
        judge(c, rule, funs[:h], head, sigs, files, single, keys, setup, mayreject, **kw); judge(c, rule, funs[h:], head, sigs, files, single, keys, setup, mayreject, **kw)
        return
    except Cut as e:
        if len(funs) == 1: c.undecided(rule, funs[0].key, e); return
        h = len(funs) // 2
        judge(c, rule, funs[:h], head, sigs, files, single, keys, setup, mayreject, **kw); judge(c, rule, funs[h:], head, sigs, files, single, keys, setup, mayreject, **kw)
        return
    F = functions(txt)
    sg = {n: ([t for _, t in f.params], f.results) for n, f in F.items()}
    sg.update(imports(txt))
    if sigs: sg.update(sigs)
    for f in funs:
        g = F.get('$x:' + f.name)
        if g is None: c.undecided(rule, f.key, 'function not found in the object text'); continue
        try:
            try: n = wcmp.compare(f, g, sg, setup=setup, **kw)
            except Undecided as u:
                if not u.many or kw.get('maxloop', 3) == 1: raise
                n = wcmp.compare(f, g, sg, setup=setup, **dict(kw, maxloop=1, maxclasses=3000))
            c.ob(rule, f.key, True)
        except Diff as d:
            c.ob(rule, f.key, False, 'emitted code for %s: %s' % (f.c(), d.what), 'c.c:compile_module_to_wat', d.exp, d.got)
        except (Undecided, Stuck) as e:
            c.undecided(rule, f.key, e)


_heads = {}


def sigof(params, ret, va=False):
    ps = [wt(t) for t in params] + (['i32'] if va else [])
    if ret.kind == 'struct': return ['i32'] + ps, []
    return ps, [] if ret is VOID else [wt(ret)]


def imports(txt):
    """{name: (params, results)} of imported functions"""
    import re
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[()]|[^\s()]+', txt); out = {}
    i = 0
    while i < len(toks):
        if toks[i] == '(' and toks[i + 1] == 'import':
            j = i + 2; d = 1; a = []
            while d:
                if toks[j] == '(': d += 1
                if toks[j] == ')': d -= 1
                a.append(toks[j]); j += 1
            if 'func' in a:
                k = a.index('func'); out[a[k + 1]] = parse_sig(a[k + 2:])
            i = j; continue
        i += 1
    return out
