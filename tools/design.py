#!/usr/bin/env python3
# Assembles DESIGN.md from design_head.md, props, harness headers, known findings and planted bugs.
import json, glob, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
out = [open('tools/design_head.md').read().rstrip(), '', '## Properties', '']
orc = dict(l.strip().split(': ', 1) for l in open('tools/oracles.txt') if ': ' in l)
man = json.load(open('MANIFEST.json')); claimed = {c['property'] for c in man['checks']}; na = {n['property']: n['reason'] for n in man.get('not_applicable', [])}
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']; out += ['### %s — %s' % (i, p['title']), '', p['statement'], '']
    if i in na: out += ['Not applicable: ' + na[i], '']; continue
    out += ['Oracle: ' + orc.get(i, 'see the harnesses') + '.', '']
    for f in sorted(glob.glob('checks/%s/*.du' % i) + glob.glob('checks/%s/*.c' % i)):
        t = open(f).read(); b = re.search(r'@bounds (.*)', t); 
        if not b: continue
        q = re.search(r'@quick (.*)', t); h = re.search(r'@thorough (.*)', t)
        out.append('* `%s`: %s%s%s' % (os.path.basename(f), b.group(1), ' [quick %s' % q.group(1) if q else '', ('; thorough %s]' % h.group(1) if h else ']') if q else ''))
    out.append('')
out += ['## Findings', '', 'Genuine defects found by the checks or while reading; each was confirmed against the native binary.', '']
for l in open('known-findings.txt'):
    if l.strip() and not l.startswith('#'): out.append('* ' + l.strip())
out += ['', '## Planted bugs and which check catches them', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[1]; out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), caught.get(n, 'not run')))
out += ['', open('tools/design_tail.md').read()] if os.path.exists('tools/design_tail.md') else []
open('DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
