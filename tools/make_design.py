"""Assembles DESIGN.md from its parts (run from /verif)."""
import glob, json, os, sys
sys.path.insert(0, 'tools')
from design_props import P
props = [json.loads(l) for l in open('properties.jsonl')]
out = [open('tools/design_head.md').read(), '## Properties\n\n']
for p in props:
    how, why = P[p['id']]
    out.append('**%s %s.** %s *Why tests cannot:* %s Check: `harness/checks/%s.py`.\n\n' % (p['id'], p['title'], how, why, p['id'].lower()))
out.append('No property is listed as not applicable.\n\n')
out.append('## Defects\n\nRepaired in /repo (one `fix:` commit each; the check reports the failure again when the commit is reverted):\n\n')
known = [json.loads(l) for l in open('known_findings.jsonl')]
for k in known:
    if k['status'] == 'fixed':
        out.append('* %s `%s` %s\n' % (k['property'], k['commit'], k['what']))
out.append('\nKnown findings, not repaired (the check prints KNOWN-FINDING and still reports any other violation):\n\n')
for k in known:
    if k['status'] == 'known':
        out.append('* %s `%s` %s\n' % (k['property'], k['key'], k['what']))
out.append('\n' + open('tools/design_tail.md').read())
out.append('\n## Planted changes and what catches them\n\nEvery change below passes the stable tests; each is caught by the quick check of its property.\n\n| change | caught by | needs |\n|---|---|---|\n')
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    out.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
open('DESIGN.md', 'w').write(''.join(out))
