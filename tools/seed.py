#!/usr/bin/env python3
"""seed.py SPEC...   makes and confirms planted bugs (development tool; no check uses it).
SPEC: text file: lines `id:`, `property:`, `needs:`, `breaks:`, `file:`, then `<<<<` old `====` new `>>>>` (repeatable; `file:` before each switches file), then `demo:` up to `expect:` up to EOF (script source, expected stdout).
Confirms in /repo: demo passes unchanged, fails with the patch, the stable tests pass with it; then runs the property's quick check on it."""
import sys, os, re, json, subprocess, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for spec in sys.argv[1:]:
    t = open(spec).read(); meta = dict(re.findall(r'^(id|property|needs|breaks): (.*)$', t, re.M))
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'dirty repo'
    D = '%s/seeded/%s' % (V, meta['id']); os.makedirs(D, exist_ok=True)
    cur = None
    for m in re.finditer(r'^file: ([^\n]*)$|^<<<<\n(.*?)^====\n(.*?)^>>>>\n', t, re.M | re.S):
        if m.group(1): cur = m.group(1).strip(); continue
        p = R + '/' + cur; s = open(p).read(); assert s.count(m.group(2)) == 1, (meta['id'], cur, s.count(m.group(2)), m.group(2))
        open(p, 'w').write(s.replace(m.group(2), m.group(3)))
    open(D + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout); sh('git -C %s checkout -- .' % R)
    if '\ndemo:\n' in t:
        demo, exp = t.split('\ndemo:\n', 1)[1].split('\nexpect:\n', 1)
        open(D + '/demo.du', 'w').write(demo + '\n'); open(D + '/expect.txt', 'w').write(exp.rstrip('\n') + '\n')
        open(D + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the script prints what is documented\nd=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); r=$(pwd)\ncp "$d"/*.du "$w"/; cd "$w" || exit 2\nout=$(timeout 60 "$r"/dictu demo.du 2>/dev/null | grep -v "^Total bytes lost")\ncd /; find "$w" -delete\n[ "$out" == "$(cat "$d"/expect.txt)" ]\n')
    else:
        open(D + '/demo.sh', 'w').write(t.split('\ndemo.sh:\n', 1)[1])
    json.dump(dict(property=meta['property'], needs=meta['needs'], what_it_breaks=meta['breaks']), open(D + '/meta.json', 'w'), indent=1)
    b = sh('bash /opt/vp/build.sh'); d0 = sh('bash %s/demo.sh' % D, cwd=R)
    a = sh('git -C %s apply %s/patch.diff' % (R, D)); res = {}
    try:
        sh('rm -f /tmp/seedt.json'); tt = sh('bash /opt/vp/test.sh /tmp/seedt.json')
        passed = set(json.load(open('/tmp/seedt.json'))['passed']); miss = stable - passed
        d1 = sh('bash %s/demo.sh' % D, cwd=R)
        c = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s --tier quick' % meta['property'], cwd=V)
    finally: sh('git -C %s checkout -- .' % R)
    ok = d0.returncode == 0 and d1.returncode != 0 and not miss and a.returncode == 0
    caught = c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout
    print('%-24s %s demo0=%d demo1=%d missing=%d  check rc=%d %s' % (meta['id'], 'VALID' if ok else 'INVALID', d0.returncode, d1.returncode, len(miss), c.returncode, 'CAUGHT' if caught else 'MISSED'))
    if miss: print('   tests failing:', sorted(miss)[:5])
    if not ok and d0.returncode: print(d0.stdout[-500:])
    if c.returncode not in (0, 1): print(c.stdout[-1500:])
    elif caught: print('   ' + '\n   '.join([l for l in c.stdout.splitlines() if l.startswith('  ') and ': ' in l and not l.startswith('  run')][:2])[:400])
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
