"""Development tool: writes the generated part of DESIGN.md (the contracts of every property) from the
property modules, the known-findings file and the planted bugs."""
import importlib, json, os, sys
sys.path.insert(0, '/verif')
os.environ['NUMBA_DISABLE_JIT'] = '1'
import vc  # noqa
MARK = '<!-- generated by tools/design.py below this line -->'
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
known = json.load(open('/verif/known_findings.json'))
conc = json.load(open('/verif/vc/concrete.json'))
out = [MARK, '', '## The contracts, property by property', '',
       '`P` proved group (every obligation discharged for all inputs; `T` thorough tier only), `B` bounded executable contract (seeded cases, '
       'replay of failed proofs). The oracle of every group is the closed form or definition written in `props/<ID>.py`, never another hexrd function.', '']
for p in props:
    m = importlib.import_module('props.' + p['id'])
    c = m.check
    out += [f"### {p['id']} {p['title']}", '']
    for a in c.assumptions:
        out.append(f'*assumes*: {a}  ')
    for name, f, funcs, th in c.groups:
        out.append(f"- {'P/T' if th else 'P'} {name} ({len(funcs)} function{'s' * (len(funcs) != 1)})")
    for name, f, funcs, n, th in c.runtimes:
        out.append(f'- B {name} ({n} seeds quick, {n * th} thorough)')
    fs = [x for x in known['findings'] if x['property'] == p['id']]
    if fs:
        out.append(f"- known findings: " + ', '.join(x['key'] for x in fs))
    fx = [x.split(' ', 3)[3] for x in known['fixed'] if x.split()[1] == 'property=' + p['id']]
    if fx:
        out.append('- repaired: ' + '; '.join(fx))
    out.append('')
out += ['## Planted bugs', '', '| bug | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    j = json.load(open(f'/verif/seeded/{d}/meta.json'))
    out.append(f"| {d} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |")
out += ['', 'Every bug of the table is caught by the check of its property (`tools/bugs.sh`).', '']
s = open('/verif/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + '\n'.join(out)
open('/verif/DESIGN.md', 'w').write(s)
