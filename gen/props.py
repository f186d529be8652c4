"""Source of properties.jsonl and MANIFEST.json: run 'python3 gen/props.py'."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []; NA = []

def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level='other', design=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    PROPS.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                   'why_tests_cant': why, 'anchors': a}, technique, level, note, design))

def N(id, title, statement, over, qtext, why, files, mech, reason):
    PROPS.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                   'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}},
                  None, None, None, reason))
    NA.append({'property': id, 'reason': reason})

exec(open(os.path.join(V, 'gen', 'list.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [
        {'property': p['id'], 'quick_cmd': './check %s --quick' % p['id'], 'thorough_cmd': './check %s --thorough' % p['id'],
         'technique': t, 'level': l, 'level_note': n} for p, t, l, n, d in PROPS if t],
     'not_applicable': NA,
     'notes': 'Every check compiles /repo\'s current sources to LLVM IR with clang 18 (or reads its headers) and analyses that; no function of the repository is run to decide anything; for lib/src the repository\'s own compiler is built and used as the front end that turns the C source into the object text analysed. Known findings: KNOWN_FINDINGS.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(PROPS), 'properties', len(m['checks']), 'checks')

def fill(s): return '\n'.join(l.rstrip() for l in s.strip().splitlines())
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(V, 'gen', 'head.md')).read().rstrip() + '\n\n## Properties\n')
    for p, t, l, n, d in PROPS:
        f.write('\n### %s %s\n\n' % (p['id'], p['title']))
        if not t: f.write('Not applicable: %s\n' % d); continue
        f.write(fill(d) + '\n\nReach beyond the tests: %s.\n' % n)
    f.write('\n' + open(os.path.join(V, 'gen', 'tail.md')).read())
    import glob
    f.write('\n| planted change | property and check that catches it | what it needs in order to manifest |\n|---|---|---|\n')
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        j = json.load(open(d)); f.write('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), j['property'], j['needs']))
