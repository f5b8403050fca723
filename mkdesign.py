#!/usr/bin/env python3-vt
"""Assembles DESIGN.md from design/*.md, the properties, the checks and the known findings."""
import json, os, importlib, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
rd = lambda f: open(os.path.join(here, 'design', f)).read().strip() + '\n'
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
out = [rd('intro.md'), '\n## The properties and how each is decided\n']
per = {}
cur = None
for l in rd('checks.md').split('\n'):
    if l.startswith('### '): cur = l[4:].strip(); per[cur] = []
    elif cur: per[cur].append(l)
for p in props:
    i = p['id']; m = importlib.import_module('checks.' + i.lower())
    out.append('\n### %s — %s\n\n> %s\n' % (i, p['title'], p['statement']))
    out.append('\n'.join(per[i]).strip() + '\n')
    nd = sum(1 for _ in m.directed('quick')) if hasattr(m, 'directed') else 0
    out.append('\n*Cases:* quick: %d enumerated + %d generated; thorough: %d generated. *Builds:* %s. *Non-trivial:* %s.%s\n' % (
        nd, m.examples('quick') if hasattr(m, 'strategy') else 0, m.examples('thorough') if hasattr(m, 'strategy') else 0, ', '.join(m.VARIANTS), m.RULE,
        (' *Assumes:* ' + '; '.join(m.ASSUMPTIONS) + '.') if m.ASSUMPTIONS else ''))
out.append('\n' + rd('tail.md'))
out.append('\n## Defects of drpm found by the checks, and repaired\n\nEach was shown on the real code by a check (or while it was written) and repaired by one `fix:` commit; `known-findings.json` lists them as fixed, which suppresses nothing. No finding is left open.\n\n| property | commit | what failed |\n|---|---|---|\n')
for k in json.load(open(here + '/known-findings.json')):
    w = k['what'].split(' ', 3) if k['what'].startswith('fixed:') else ['', '', '', k['what']]
    out.append('| %s | %s | %s |\n' % (k['property'], w[2] if len(w) > 3 else k.get('commit', ''), w[3]))
out.append('\n' + rd('seeded.md'))
sd = here + '/seeded'
out.append('\n| id | property | what it breaks | needs |\n|---|---|---|---|\n')
for d in sorted(os.listdir(sd)):
    f = '%s/%s/meta.json' % (sd, d)
    if os.path.exists(f):
        m = json.load(open(f)); out.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'], m['needs']))
open(here + '/DESIGN.md', 'w').write(''.join(out))
print(len(''.join(out)))
