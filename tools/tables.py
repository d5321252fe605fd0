#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md from known_findings.json and seeded/*/meta.json (authoring helper)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(V + '/known_findings.json'))['findings']
f = []
for st in ('known', 'fixed'):
    for k in sorted((k for k in kf if k['status'] == st), key=lambda k: k['property']):
        w = k['what'] if st == 'known' else re.sub(r'^fixed: property=\S+ \S+ ', '', k['what'])
        f.append('- %s %s%s: %s' % (k['property'], st, ' ' + k['commit'] if st == 'fixed' else ' (`%s`)' % k['probe'], w))
miss = {'random-min-one': 'C15 had no look at min()/max()', 'crlf-limit': 'C03 put surplus bytes only into header lines', 'stuck-after-tail': 'C30 had only peers that close when the server does', 'frame-of-65536': 'C26 drew boundary sizes too rarely', 'position-buffered': '', 'aborted-stops-accept': ''}
s = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda m: (json.load(open(m))['property'], m)):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    s.append('| %s | %s | %s | %s%s |' % (i, d['what_it_breaks'], d['needs'], d['property'], ' (strengthened: %s)' % miss[i] if miss.get(i) else ''))
t = open(V + '/DESIGN.md').read()
for name, rows in (('findings', f), ('seeds', s)):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + t[t.index(b):]
open(V + '/DESIGN.md', 'w').write(t)
