#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the marker comments):
the list of repairs from known-findings.txt and the list of planted bugs from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fix = []
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fix.append('| %s | `%s` | %s |' % m.groups())
fixes = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fix)
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
seeds = '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows)
p = V + '/DESIGN.md'; s = open(p).read()
for name, t in (('FIXES', fixes), ('SEEDS', seeds)):
    s = re.sub(r'@%s@' % name, lambda m: '<!-- %s -->\n<!-- /%s -->' % (name, name), s)
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, t, name), s, flags=re.S)
open(p, 'w').write(s)
