"""Rewrites the generated sections of DESIGN.md (repaired defects, harnesses, planted bugs and what catches them)."""
import os, sys, json, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
MARK = '<!-- generated by tools/gen_design.py; do not edit below -->'


def harnesses():
    import ast
    for k in range(1, 25):
        src = open(os.path.join(ROOT, 'checks', 'c%02d.py' % k)).read()
        out = []
        for n in ast.parse(src).body:
            if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in n.decorator_list):
                out.append('`%s` (%s)' % (n.name, ' '.join((ast.get_docstring(n) or '').split())))
        yield 'C%02d' % k, out


L = [MARK, '', '### Repaired defects', '']
for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        L.append('* %s, %s: %s' % (m.group(1), m.group(2), m.group(3)))
L += ['', '## 6. Harnesses', '']
for c, hs in harnesses():
    L += ['* **%s**: %s' % (c, '; '.join(hs))]
L += ['', '## 7. Planted bugs and the checks which catch them', '',
      'Run with `python3 tools/battery.py [ids…] [--all]` (scratch copies).  "assertion" is the first one violated.  "as planted" means that',
      'the bug was caught when it was planted and strengthened against, but not run again by the last battery.', '',
      '| bug | property | needs | caught by | assertion |', '|---|---|---|---|---|']
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'caught.json')) else {}
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    p = os.path.join(ROOT, 'seeded', i, 'meta.json')
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    r = caught.get(i, {})
    hits = sorted(c for c in r if r[c])
    own = r.get(m['property']) or (r[hits[0]] if hits else '')
    cell = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    L.append('| %s | %s | %s | %s | %s |' % (i, m['property'], cell(m['needs'])[:200], ', '.join(hits) or ('%s, as planted' % m['property'] if not r else 'missed'), cell(own)[:110]))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read().split(MARK)[0].rstrip('\n')
open(p, 'w').write(s + '\n\n' + '\n'.join(L) + '\n')
