#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from the specifications and the planted bugs (maintenance only)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/specs/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/specs/not_applicable.json'))
u = []
for p in props:
    i = p['id']
    u.append('### %s %s\n' % (i, p['title']))
    if i not in conf:
        u.append('Not applicable: %s\n' % na.get(i, ''))
        continue
    c = conf[i]
    u.append('%s\n' % p['statement'])
    u.append('*Units* %s; *main obligations* %s.\n' % (', '.join('`specs/%s.vx`' % x for x in c['units']), ', '.join('`%s`' % t for t in c['theorems'])))
    u.append('%s\n' % c['level_note'])
    u.append('*Assumed:* %s.\n' % '; '.join(c['assumptions']))
    u.append('*Why not a test:* %s *Bounded part:* `%s` (%s).\n' % (p.get('why_tests_cant', ''), c['bin'], c['rule']))
s = ['| bug | property | what it needs | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    s.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'], m['what_it_breaks']))
f = [l for l in open(V + '/known-findings.txt').read().split('\n') if l.startswith(('fixed:', 'open:'))]
t = open(V + '/DESIGN.md').read()
for name, text in (('UNITS', '\n'.join(u)), ('SEEDED', '\n'.join(s)), ('FIXED', '\n'.join('- ' + x for x in f))):
    t = re.sub(r'<!-- %s -->.*?<!-- end -->' % name, lambda m: '<!-- %s -->\n%s\n<!-- end -->' % (name, text), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
