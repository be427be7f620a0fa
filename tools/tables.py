#!/usr/bin/env python3
"""Regenerate the tables of DESIGN.md (defects and planted bugs): python3 tools/tables.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- tables: made by tools/tables.py -->\n'


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    head = open(p, encoding='utf8').read().split(MARK)[0]
    out = [head + MARK]
    w = lambda s: out.append(s.replace('\n', ' ') + '\n')
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    out.append('\n## 3. Defects found and repaired\n\nEach was reported by the named check, shown on the real code, and repaired by a `fix:` commit '
               'in /repo (also listed in `known_findings.json`, which holds no open finding).\n\n')
    w('| property | commit | what failed |')
    w('|---|---|---|')
    for f in kf:
        w('| %s | %s | %s |' % (f['property'], f['commit'], f['what'].replace('|', '/')))
    out.append('\n## 4. Planted bugs\n\nAll pass the stable tests; "caught by" names the checks that exit 1 (quick tier).\n\n')
    w('| bug | breaks | needs | caught by |')
    w('|---|---|---|---|')
    log = json.load(open(os.path.join(HERE, 'tools', 'seeded.json')))
    for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
        r = log.get(b, {})
        c = ', '.join(k for k in sorted(r) if r[k] == 'caught') or '(none)'
        w('| %s | %s: %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), c))
    open(p, 'w', encoding='utf8').write(''.join(out))


main()
