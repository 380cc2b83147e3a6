#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(here, '..')
sys.path.insert(0, here)
from claims import CLAIMS, NA, BASE
out = [open(here + '/design_head.md').read()]
out.append('## 2. The properties, and how each is decided\n')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
caught = {}
cf = here + '/caught.json'
if os.path.exists(cf): caught = json.load(open(cf))
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i in CLAIMS: out.append('*Scope.* ' + CLAIMS[i].replace(BASE, '') + '\n')
    else: out.append('*Not applicable.* ' + NA.get(i, '') + '\n'); continue
    out.append('| harness | bounds | replaced by specifications |\n|---|---|---|')
    for f in sorted(glob.glob(V + '/harness/%s/**/*.go' % i.lower(), recursive=True)):
        s = open(f).read()
        for m in re.finditer(r'((?:^//.*\n)*)^func ([HTK]_\w+)\(\)', s, re.M):
            doc, n = m.groups()
            what = ''
            b = re.findall(r'^//vh:bounds (.*)$', doc, re.M)
            rep = [re.sub(r':\w+$', '', r) for r in re.findall(r'replace=(\S+)', doc)]
            w = re.match(r'// \w+: (.*?)\n(?://\n|//vh|$)', doc, re.S)
            if w: what = ' '.join(x.lstrip('/ ').strip() for x in w.group(1).split('\n'))
            out.append('| `%s` %s | %s | %s |' % (n, what.replace('|', '/'), ' '.join(b).replace('|', '/') or 'as built in the harness', ', '.join(sorted(set(rep)))))
    out.append('')
out.append('''`H_` harnesses run in both tiers, `T_` in the thorough one only, `K_` show known findings. Not applicable: %s.
''' % (', '.join(NA) or 'none; every listed property is claimed'))
out.append('## 3. Planted changes and the checks that catch them\n')
out.append('Each lies in `seeded/<id>/` with a demonstration; all pass the existing tests. The last column is the first assertion and\nharness of the quick check that reported it (last run of all).\n')
out.append('| change | property | what it needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, '')))
out.append('''
Besides these, several hundred one-token mutants of the repository (operators, constants, conditions, dropped statements)
were generated during the work, those that pass the tests were run against the checks, and the survivors that change
behaviour led to further harnesses. Known survivors: tie-breaking in the order of equal points (no behaviour), tolerances changed by
less than the margins of the specifications, log output, and the bookkeeping of neighbour corners in `MakeOffset`
(`slicers/vip/offset_path.go`, the assignment of a joined corner to the following side), which shows only in contours with
more vanished sides than C19's shapes have.
''')
out.append('## 4. Genuine defects: repaired and recorded\n')
out.append('Found by the checks on the original tree, repaired by "fix:" commits (the check fails again if the defect returns):\n')
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: out.append('* %s (%s): %s' % m.groups())
out.append('\nRecorded, not repaired:\n')
for l in open(V + '/known-findings.txt'):
    m = re.match(r'finding: property=(\S+) (.*)', l)
    if m: out.append('* %s: %s' % m.groups())
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
