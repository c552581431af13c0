#!/usr/bin/env python3
"""Rewrites the tail of DESIGN.md (findings, planted bugs) from known-findings.txt and seeded/."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
mark = '<!-- generated below by tools/mkdesign.py from known-findings.txt and seeded/*/meta.json -->\n'
s = open('DESIGN.md').read()
s = s[:s.index(mark) + len(mark)]
s += '\n## 3. Genuine defects found and repaired\n\nEach is one "fix:" commit in /repo (known-findings.txt); none is left as a known finding.\n\n'
for l in open('known-findings.txt'):
    if l.startswith('fixed:'):
        p, c, what = l.split(None, 3)[1:]
        s += '- %s `%s` %s\n' % (p.split('=')[1], c, what.strip())
s += '\n## 4. Planted bugs\n\nAll build, pass the stable tests and are shown by their demo.sh. Unless the last column says otherwise the quick check of the property catches it.\n\n'
s += '| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    s += '| %s | %s | %s | %s | %s |\n' % (f.split('/')[1], m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), m.get('caught', 'yes'))
open('DESIGN.md', 'w').write(s)
