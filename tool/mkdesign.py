"""writes DESIGN.md from design_head.md, design_props.py, properties.jsonl, KNOWN_FINDINGS.txt, MANIFEST.json and the planted bugs"""
import json, os, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tool')
out = [open(os.path.join(T, 'design_head.md')).read()]
P = runpy.run_path(os.path.join(T, 'design_props.py'))['P']
M = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
tech = {c['property']: c['technique'] for c in M['checks']}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] in P:
        how, bound = P[p['id']]
        out.append('### %s %s\n*Technique:* %s.\n\n*Decided by:* %s\n\n*Bound / assumption:* %s\n' % (p['id'], p['title'], tech.get(p['id'], '?'), how, bound))
out.append('### Not applicable to this family\n')
for n in M['not_applicable']:
    out.append('* **%s** — %s' % (n['property'], n['reason']))
out.append('\n' + open(os.path.join(T, 'design_tail.md')).read())
out.append('## 5. Planted bugs and the checks that catch them\n')
out.append('Each was confirmed in a scratch copy: builds, passes the 146 stable tests, its demonstration fails with the patch and passes without. "Caught" = the check of the property exits 1.\n')
res = {}
f = os.path.join(T, 'seed_results.txt')
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        if len(w) > 2:
            res[w[0]] = w[2]
out.append('| planted bug | property | needs | result |\n|---|---|---|---|')
D = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(D)) if os.path.isdir(D) else []:
    m = json.load(open(os.path.join(D, d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], str(m.get('needs', '')).replace('|', '\\|').replace('\n', ' '), {'CAUGHT': 'caught by ' + m['property'], 'MISSED': '**missed**'}.get(res.get(d), 'not rechecked')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
