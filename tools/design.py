#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the registered checks, the last evidence and the notes below.
Run by hand after changing a check (no check runs it)."""
import json, os, re, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(R + '/MANIFEST.json'))
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
H = {}
for l in open(R + '/tools/harnesses.txt'):
    f = l.split()
    if len(f) >= 2: H[f[0]] = f[1:]
from design_notes import NOTES
fixed = {}
for l in open(R + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
out = [open(R + '/tools/design_head.md').read().rstrip() + '\n\n## The properties\n']
C = {c['property']: c for c in M['checks']}
NA = {n.get('property', n.get('id')): n for n in M['not_applicable']}
for p in P:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i not in C:
        out.append('**Not claimed.** %s\n' % NA.get(i, {}).get('reason', ''))
        continue
    c = C[i]
    ev = {}
    try: ev = json.load(open('%s/evidence/%s.json' % (R, i)))
    except OSError: pass
    cov = ev.get('coverage', {})
    out.append('- **Decided by**: %s (harness `%s`).' % (c['technique'], ' '.join(H.get(i, ['?']))))
    out.append('- **Quantified over**: %s.' % p['quantifier']['text'])
    out.append('- **Bounds**: %s' % c['level_note'])
    if cov.get('rule'): out.append('- **What counts as a state and a transition**: %s.' % cov['rule'].rstrip('.'))
    if cov.get('cases') and ev.get('tier') == 'quick':
        out.append('- **Cost (quick)**: %d executions, %d states, %d transitions.' % (cov['cases'], cov['states'], cov['transitions']))
    out.append('- **Beyond the tests**: %s' % p['why_tests_cant'])
    if NOTES.get(i):
        out.append('- **Not judged, and why**: ' + NOTES[i])
    if fixed.get(i):
        f = fixed[i]
        out.append('- **Defects found by this check and repaired**: %d, e.g. %s.' % (len(f), '; '.join('`%s` %s' % x for x in f[:3])))
    out.append('')
import os
rows = ['| planted | property | needs | breaks | outcome |', '|---|---|---|---|---|']
MISSED = {'p09-free-shadow': 'missed at first (no history freed with generation 0); section kind added, caught', 'p30-row': 'missed at first (display texts never equalled values); added, caught', 'p33-decode': 'missed at first (images were only set once); "pixels-again" and "raw-again" added, which also uncovered cases skipped by a slip in the harness; caught'}
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], MISSED.get(i, 'caught by %s' % m['property'])))
tail = open(R + '/tools/design_tail.md').read().rstrip()
tail = tail.replace('SEEDTABLE', '\n'.join(rows)).replace('FIXEDCOUNT', str(sum(len(v) for v in fixed.values())))
out.append(tail)
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
