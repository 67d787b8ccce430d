#!/usr/bin/env python3
"""(Re)generate the tables of DESIGN.md from harness metadata, meta.py and seeded/."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    h = V + '/harness/%s.cc' % p['id']
    if not os.path.exists(h):
        out.append('* **%s %s** — not claimed, see `not_applicable`.' % (p['id'], p['title'])); continue
    md = {}
    cfg = set(); modes = set(); n = 0
    for ln in open(h):
        m = re.match(r'// @(\w+) (.*)', ln)
        if m: md.setdefault(m.group(1), []).append(m.group(2).strip())
        if ln.startswith('ENTRY('): n += 1
    for r in md.get('run', []):
        d = dict(x.split('=') for x in r.split()); cfg |= set(d.get('cfg', 'internal').split(',')); modes.add(d.get('mode', 'real'))
    out.append('* **%s %s.** Specified: %s\n  - decided by: symbolic execution, domain %s, configurations %s, %d entry points; oracle: dense definition in `harness/%s.cc`\n  - bounds: %s\n%s  - outside: %s' % (
        p['id'], p['title'], p['statement'], '/'.join(sorted(modes)), ', '.join(sorted(cfg)), n, p['id'], '; '.join(md.get('bound', [])),
        ('  - assumes: %s\n' % '; '.join(md['assume'])) if 'assume' in md else '', '; '.join(md.get('outside', ['-']))))
tab = '\n'.join(out)
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
cb = json.load(open(V + '/docs/caught.json')) if os.path.exists(V + '/docs/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), cb.get(i, '(not measured)')))
s = open(V + '/DESIGN.md').read()
def put(s, key, body):
    b, e = '<!-- %s -->' % key, '<!-- /%s -->' % key
    blk = b + '\n' + body + '\n' + e
    if '@%s@' % key in s: return s.replace('@%s@' % key, blk)
    return s[:s.index(b)] + blk + s[s.index(e) + len(e):]
s = put(s, 'TABLE', tab); s = put(s, 'SEEDED', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
