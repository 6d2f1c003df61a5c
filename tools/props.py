#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.txt.

props.txt: blocks separated by blank lines; each block has lines `key: value`:
  id, title, statement, over (comma list), quantifier, why, files (comma list), mech (name @ where; repeatable), observe (comma list), level_note, na (reason; property listed as not applicable)
"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real interpreter (LLVM bitcode of /repo) with an SMT solver (Z3)'
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds printed in the evidence file; every assertion is discharged by the solver over all of them and every counterexample is replayed natively before it is reported. '
        'Trusts clang -O1 lowering, the dsx engine, the libc models in rt/libc.c and Z3 (DESIGN.md, "What is trusted").')
blocks = []; cur = {}
for line in open(V + '/tools/props.txt', encoding='utf-8').read().split('\n') + ['']:
    if line.startswith('#'): continue
    if not line.strip():
        if cur: blocks.append(cur); cur = {}
        continue
    k, v = line.split(': ', 1); k = k.strip(); v = v.strip()
    if k == 'mech': cur.setdefault('mech', []).append(v)
    else: cur[k] = v
props = []; checks = []; na = []
for b in blocks:
    assert re.fullmatch(r'[A-Z][0-9]{2,3}', b['id']), b['id']; assert len(b['title']) <= 80, b['title']; assert len(re.findall(r'[.;] [A-Z]', b['statement'])) <= 2, b['id']
    props.append(dict(id=b['id'], title=b['title'], statement=b['statement'], quantifier=dict(over=[x.strip() for x in b['over'].split(',')], text=b['quantifier']), why_tests_cant=b['why'],
        anchors=dict(files=[x.strip() for x in b['files'].split(',')], mechanism=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in b['mech']], observe_at=[x.strip() for x in b.get('observe', 'script results').split(',')], hook_needed=None)))
    if 'na' in b: na.append(dict(property=b['id'], reason=b['na'])); continue
    assert os.path.isdir(V + '/checks/' + b['id']), b['id']
    checks.append(dict(property=b['id'], quick_cmd='python3 check.py %s --tier quick' % b['id'], thorough_cmd='python3 check.py %s --tier thorough' % b['id'], technique=TECH, level='model_checking', level_note=(b.get('level_note', '') + ' ' + NOTE).strip()))
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh .build', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
for d in sorted(os.listdir(V + '/checks')):
    if d not in [b['id'] for b in blocks]: print('  not listed:', d)
