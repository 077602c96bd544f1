"""Regenerate DESIGN.md."""
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import props

V = driver.VERIF
rd = lambda p: open(os.path.join(V, p)).read()
cost = {}
cf = os.path.join(V, 'doc', 'cost.json')
if os.path.exists(cf):
    cost = json.load(open(cf))
for f in glob.glob(os.path.join(V, 'evidence', '*.json')) if '--cost' in sys.argv else []:
    e = json.load(open(f))
    if e['tier'] == 'quick':
        c = e['coverage']
        cost[e['property']] = [round(e['wall_s']), c.get('cases'), c.get('obligations'), c.get('solver_queries')]
json.dump(cost, open(cf, 'w'), indent=0, sort_keys=True)
o = [rd('doc/design_head.md'), '## The properties, one by one\n']
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    s = props.PROPS[p['id']]
    cs = s['cases']('quick')
    eng = sorted({c.engine for c in cs})
    hs = sorted({os.path.basename(c.harness) for c in cs})
    srcs = sorted({os.path.basename(driver.SRC[x]) for c in cs for x in c.srcs if x in driver.SRC})
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append(p['statement'] + '\n')
    o.append('* **Decided by** %s; harness %s; real code encoded: %s.' % (' + '.join(eng), ', '.join(hs), ', '.join(srcs) or 'header-only'))
    o.append('* **How**: ' + s['explanation'])
    o.append('* **Bounds**: ' + '; '.join('%s: %s' % kv for kv in s['bounds'].items()))
    o.append('* **Outside**: ' + ('; '.join(s['outside']) or 'nothing further'))
    o.append('* **Assumes**: ' + ('; '.join(s['assumptions']) or 'nothing'))
    o.append('* **Beyond tests**: ' + p['why_tests_cant'])
    o.append('* **Anchored at**: ' + ', '.join('%s' % m['where'] for m in p['anchors'].get('mechanism', [])) + ' (' + ', '.join(p['anchors']['files']) + ')')
    if p['id'] in cost:
        o.append('* **Cost (quick, 8 cores)**: about %s s; %s cases, %s obligations, %s solver queries' % tuple(cost[p['id']]))
    o.append('')
o.append(rd('doc/design_tail.md'))
o.append(rd('doc/design_seeds.md') if os.path.exists(os.path.join(V, 'doc/design_seeds.md')) else '')
det = json.loads(rd('doc/detected.json')) if os.path.exists(os.path.join(V, 'doc/detected.json')) else {}
o.append('| planted bug | property | what it breaks | needs | reported by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    o.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), det.get(n, m['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
