"""Assembles DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read()
checks = json.loads(rd('checks.json'))
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
known = json.loads(rd('known_findings.json'))
catches = json.loads(rd('tools/design/catches.json'))
measured = json.loads(rd('tools/design/measured.json'))
o = [rd('tools/design/head.md')]
o.append('## Properties\n')
for p in props:
    i = p['id']; c = checks[i]; m = measured.get(i)
    o.append('### %s: %s\n' % (i, p['title']))
    o.append('* Method: %s (level: %s).' % (c['technique'], c.get('level','exploration')))
    o.append('* Generated cases and oracle: %s' % c['rule'])
    o.append('* Why this reaches what the tests cannot: %s' % p['why_tests_cant'])
    o.append('* Bounds: %s' % c['level_note'])
    for a in c.get('assumptions', []):
        o.append('* Assumption: %s' % a)
    if m:
        o.append('* Cost: quick tier about %d s for %d cases, %d of them distinct and non-trivial (8 cores, seed 1).' % (m['wall'], m['evaluations'], m['nontrivial']))
    own = [n for n, d in sorted(catches.items()) if d['property'] == i]
    if own:
        o.append('* Seeded changes: %s.' % ', '.join('%s (%s)' % (n, 'caught' if i in catches[n]['caught'] else 'not caught') for n in own))
    o.append('')
o.append('## Properties the technique cannot decide\n\nNone.\n')
o.append('## Defects found\n\nOpen:\n')
for f in known['findings']:
    o.append('* %s: %s. Not repaired because %s.' % (f['property'], f['what'], f['why_not_fixed']))
o.append('\nRepaired in `/repo` (one commit each):\n')
for f in known['fixed']:
    w = f.split(' ', 3)
    o.append('* %s (%s): %s.' % (w[1].split('=')[1], w[2], w[3]))
o.append('')
o.append('## Seeded changes and the checks that catch them\n')
o.append('Each was run with the quick tier, seed 1, of its own property and of the others listed.\n')
o.append('| change | property | what it breaks | caught by | not caught by |')
o.append('|---|---|---|---|---|')
for n, d in sorted(catches.items()):
    meta = json.load(open(os.path.join(here, 'seeded', n, 'meta.json')))
    o.append('| %s | %s | %s | %s | %s |' % (n, d['property'], meta['what_it_breaks'], ' '.join(d['caught']) or '-', ' '.join(d['missed']) or '-'))
o.append('')
o.append(rd('tools/design/tail.md'))
if os.path.exists(os.path.join(here, 'tools/design/mutants.md')):
    o.append(rd('tools/design/mutants.md'))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(o))
