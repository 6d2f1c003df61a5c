#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current sources.

  check.py ID [--tier quick|thorough] [--only NAME] [-v]

Everything is rebuilt from /repo on each run: sources -> LLVM bitcode -> symbolic execution (engine/) -> native replay.
Exit 0: nothing found; exit 1: a VIOLATION line was printed; exit 2: the check could not be built or run.
"""
import sys, os, re, json, glob, subprocess, tempfile, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('DICTU_REPO', '/repo'); BUILD = os.path.join(V, '.build')
sys.path.insert(0, V)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def engine():
    exe = os.path.join(BUILD, 'dsx'); src = glob.glob(V + '/engine/*')
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = sh(['bash', V + '/engine/build.sh', BUILD])
        if not os.path.exists(exe): print(r.stdout); sys.exit(2)
    return exe

def parse_meta(path):
    m = {'name': os.path.splitext(os.path.basename(path))[0], 'path': path, 'wrap': False, 'covers': [], 'quick': {}, 'thorough': {}, 'maxinstr': 20000000, 'uninit': True, 'rc': 'ok', 'tiers': ['quick', 'thorough'], 'bounds': '', 'gc': 'off', 'timeout': {'quick': 100, 'thorough': 800}, 'weight': 1, 'solver': 20000, 'wrapfn': []}
    for line in open(path, errors='replace'):
        mm = re.match(r'\s*//\s*@([\w-]+)\s*(.*)$', line)
        if not mm: continue
        k, v = mm.group(1), mm.group(2).strip()
        if k == 'wrap': m['wrap'] = True
        elif k == 'covers': m['covers'] += [x.strip() for x in v.split(',') if x.strip()]
        elif k in ('quick', 'thorough'): m[k].update(dict(p.split('=') for p in v.split()))
        elif k == 'max-instr': m['maxinstr'] = int(v)
        elif k == 'uninit': m['uninit'] = v != 'off'
        elif k == 'rc': m['rc'] = v
        elif k == 'tiers': m['tiers'] = v.split(',')
        elif k == 'bounds': m['bounds'] = (m['bounds'] + ' ' + v).strip()
        elif k == 'gc': m['gc'] = v
        elif k == 'timeout': m['timeout'] = dict(zip(('quick', 'thorough'), map(int, v.split())))
        elif k == 'wrapfn': m['wrapfn'] += [x.strip() for x in v.split(',') if x.strip()]
        elif k == 'weight': m['weight'] = int(v)
        elif k == 'solver-ms': m['solver'] = int(v)
    return m

def script_text(path): # @include NAME.du: the sections of another script
    b = open(path, 'rb').read()
    for m in re.findall(rb'^// @include (\S+)', b, re.M): b += b'\n//---\n' + open('%s/checks/%s' % (V, m.decode()), 'rb').read()
    return b

def c_string(b): return ''.join('%d,' % c for c in b) + '0'

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1].split(',')
    t0 = time.time(); exe = engine()
    files = sorted(glob.glob('%s/checks/%s/*.du' % (V, pid)) + glob.glob('%s/checks/%s/*.c' % (V, pid)))
    runs = [parse_meta(f) for f in files]; runs = [r for r in runs if tier in r['tiers'] and (not only or r['name'] in only)]
    if not runs: print('no harness for', pid); sys.exit(2)
    work = tempfile.mkdtemp(prefix='dsx.%s.' % pid, dir=BUILD)
    try: rc = run_check(pid, tier, runs, work, exe, verbose, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known_findings(pid):
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) run=(\S+) kind=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m and m.group(1) == pid: out.append({'run': m.group(2), 'kind': m.group(3), 'match': re.compile(m.group(4)), 'what': m.group(5), 'seen': False})
    return out

def run_check(pid, tier, runs, work, exe, verbose, t0):
    ntotal = {'quick': 8, 'thorough': 8}[tier]
    # ---- one translation unit with every script of this check, plus the C harnesses
    scripts = [r for r in runs if r['path'].endswith('.du')]; cs = [r for r in runs if r['path'].endswith('.c')]
    src = os.path.join(work, 'h.c'); o = ['#include "hx.h"\n#include "spec.h"\n']
    for i, r in enumerate(scripts): r['idx'] = i; o.append('static const char s%d[] = {%s};\n' % (i, c_string(script_text(r['path']))))
    o.append('static const char *const hx_scripts[] = {%s0};\n' % ''.join('s%d,' % i for i in range(len(scripts))))
    o.append('#include "script.h"\n')
    for r in cs: o.append('#include "%s"\n' % r['path'])
    open(src, 'w').write(''.join(o))
    bc = os.path.join(work, 'all.bc'); wf = sorted({w for r in runs for w in r['wrapfn']}); keep = ','.join(['harness'] + wf + ['wrap_' + w for w in wf] + ['reallocate', 'wrap_reallocate'] + ['h_' + r['name'].replace('-', '_') for r in cs])
    b = sh(['bash', V + '/tools/mkbc.sh', bc, work + '/bc', src], env=dict(os.environ, KEEP=keep))
    if b.returncode != 0: print('BUILD FAILED\n' + b.stdout[-4000:]); return 2
    tb = time.time() - t0
    # ---- symbolic execution
    deadline = t0 + (400 if tier == "quick" else 850)
    slots = threading.Semaphore(ntotal); acq = threading.Lock()
    nj = max(1, min(8, ntotal // max(1, min(len(runs), 4))))
    def one(r):
        out = os.path.join(work, 'out.' + r['name']); os.mkdir(out)
        jobs = ntotal if r['weight'] >= 6 else nj # heavy runs get all cores, one after another
        with acq:
            for _ in range(jobs): slots.acquire()
        try:
            to = max(5, min(r['timeout'][tier], deadline - time.time()))
            cmd = [exe, bc, '--jobs', str(jobs), '--timeout', str(to), '--out', out, '--max-instr', str(r['maxinstr']), '--solver-ms', str(r['solver'])]
            params = dict(r['quick']); 
            if tier == 'thorough': params.update(r['thorough'])
            if r['path'].endswith('.du'): cmd += ['--entry', 'harness', '--param', 'script=%d' % r['idx'], '--param', 'rcany=%d' % (r['rc'] == 'any'), '--param', 'gcmode=%d' % {'off': 0, 'stress': 1, 'sym': 2, 'calls': 0}[r['gc']]]; r['params'] = dict(params, script=r['idx'], rcany=int(r['rc'] == 'any'), gcmode={'off': 0, 'stress': 1, 'sym': 2, 'calls': 0}[r['gc']])
            else: cmd += ['--entry', 'h_' + r['name'].replace('-', '_')]; r['params'] = dict(params)
            for k, v in params.items(): cmd += ['--param', '%s=%s' % (k, v)]
            if r['wrap']: cmd += ['--wrap', 'copyString', '--wrap', 'takeString']
            if r['gc'] == 'calls': cmd += ['--wrap', 'reallocate']
            for w in r['wrapfn']: cmd += ['--wrap', w]
            if not r['uninit']: cmd += ['--no-uninit']
            s = time.time()
            try: p = sh(cmd, timeout=to + 60)
            except subprocess.TimeoutExpired: p = None
            r['log'] = p.stdout[-2000:] if p else 'timeout'; r['rcode'] = p.returncode if p else -1; r['wall'] = time.time() - s
        finally:
            for _ in range(jobs): slots.release()
        r['res'] = [json.load(open(f)) for f in glob.glob(out + '/r.*.json') if os.path.getsize(f)]
    with ThreadPoolExecutor(max_workers=max(1, ntotal // nj)) as ex: list(ex.map(one, sorted(runs, key=lambda r: -r['weight'])))
    # ---- aggregate
    ev_runs = []; viols = []; bad = False
    tot = dict(paths=0, instrs=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, asserts_symbolic=0, asserts_proved=0, solver_s=0.0, forks=0)
    funcs = set(); complete_all = True
    for r in runs:
        agg = dict.fromkeys(tot, 0); cover = {}; inc = {}; err = {}
        if r['rcode'] != 0 or not r['res']: err['engine exit %s: %s' % (r['rcode'], r['log'][-300:])] = 1
        for j in r['res']:
            for k in agg: agg[k] += j[k]
            for src_, dst in ((j['cover'], cover), (j['incomplete'], inc), (j['engine_errors'], err)):
                for k, n in src_.items(): dst[k] = dst.get(k, 0) + n
            funcs.update(re.sub(r'\.\d+$', '', f) for f in j['functions'])
            for v in j['violations']: v['run'] = r; viols.append(v)
            r.setdefault('samples', []).extend(j.get('samples', []))
        for k in tot: tot[k] += agg[k]
        missing = [c for c in r['covers'] if c not in cover]
        comp = not [k for k in inc if not k.startswith('note:')] and not err and not missing; complete_all &= comp
        ev_runs.append(dict(name=r['name'], params={k: str(v) for k, v in r['params'].items() if k not in ('script', 'rcany')}, bounds=r['bounds'], complete=comp, paths=agg['paths'], queries=agg['queries'], unsat=agg['unsat'], unknown=agg['unknown'], asserts_discharged=agg['asserts'], asserts_by_solver=agg['asserts_symbolic'], solver_s=round(agg['solver_s'], 2), wall_s=round(r['wall'], 1), covers_hit=cover, covers_missing=missing, incomplete=inc, engine_errors=err, sample=(r.get('samples') or [[]])[0]))
        if verbose or err or not comp: print('  run %-28s paths=%d queries=%d unsat=%d wall=%.1fs%s%s%s' % (r['name'], agg['paths'], agg['queries'], agg['unsat'], r['wall'], ' INCOMPLETE ' + json.dumps(inc)[:300] if inc else '', ' ENGINE ' + json.dumps(err)[:500] if err else '', ' MISSING-COVERS ' + ','.join(missing) if missing else ''))
        if err: bad = True
    # ---- replay
    known = known_findings(pid); reported = []; unconf = []; seen = set(); rb = None; nrep = 0
    tries = {}; viols.sort(key=lambda v: (v['soft'], v['run']['name'], v['kind'], v['msg'], len(v['inputs'])))
    for v in viols:
        top = v['where'].split(' < ')[0]; key = (v['run']['name'], v['kind'], v['msg'] if v['kind'] == 'assert' else re.sub(r'\d+', '#', v['msg']), re.sub(r':\d+', '', top))
        if key in seen or tries.get(key, 0) >= 4: continue
        tries[key] = tries.get(key, 0) + 1
        sig = '%s %s @ %s' % (v['kind'], v['msg'], v['where'])
        kf = next((k for k in known if k['run'] == v['run']['name'] and k['kind'] == v['kind'] and k['match'].search(sig)), None)
        if verbose: print('  candidate:', v['run']['name'], sig, v['inputs'][:12])
        if nrep >= 25 or time.time() > t0 + (600 if tier == 'quick' else 880): unconf.append(dict(sig=sig, why='not replayed: limit reached')); continue
        if rb is None: rb = build_replay(work, src)
        nrep += 1; ok, how, rpath = replay(pid, rb, v, work)
        if not ok: unconf.append(dict(sig=sig, run=v['run']['name'], inputs=v['inputs'], why=how)); print('  unconfirmed counterexample (%s): %s: %s' % (how, v['run']['name'], sig)); continue
        seen.add(key)
        if kf:
            if not kf['seen']: print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
            kf['seen'] = True; continue
        if len(reported) > 7: reported.append(dict(run=v['run']['name'], sig=sig, replay=rpath)); continue
        if not reported: print('VIOLATION property=%s replay=%s' % (pid, rpath))
        print('  %s: %s' % (v['run']['name'], sig)); print('    inputs: %s' % ' '.join('%s=0x%s' % (x[0], x[2]) for x in v['inputs'][:40])); print('    native replay: %s (%s)' % (how, rpath))
        reported.append(dict(run=v['run']['name'], sig=sig, inputs=v['inputs'], replay=rpath, confirmed=how))
    # ---- engine/implementation agreement: witnesses of explored paths, run natively
    val = []; nval = 0
    if rb is None and not reported and time.time() < deadline + 200: rb = build_replay(work, src, ('plain',))
    if rb and 'plain' in rb and not reported:
        for r in runs:
            for smp in sorted(r.get('samples', []), key=lambda x: json.dumps(x))[::max(1, len(r.get('samples', [])) // 3)][:3]:
                if time.time() > deadline + 250: break
                rc = witness(rb, r, smp, work); nval += 1
                if rc != 0: val.append(dict(run=r['name'], inputs=smp, native=str(rc))); print('  note: engine/native divergence in %s: native result %s for %s' % (r['name'], rc, smp[:12]))
    for k in known:
        if not k['seen']: print('  note: listed finding not reproduced: ' + k['what'])
    lv = json.load(open(V + '/levels.json')).get(pid, {}) if os.path.exists(V + '/levels.json') else {}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=lv.get('level', 'model_checking'), wall_s=round(time.time() - t0, 1),
              coverage=dict(
                evidence=dict(technique='symbolic execution of the LLVM bitcode of /repo with SMT (Z3 bit-vectors + IEEE floating point)', engine='dsx', complete_within_bounds=complete_all,
                  functions_encoded=sorted(f for f in funcs if not f.startswith(('hx_', 'spec_', 'sx_', 'wrap_'))), n_functions=len(funcs), paths=tot['paths'], instructions=tot['instrs'], queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], asserts_checked=tot['asserts'], asserts_needing_solver=tot['asserts_symbolic'], asserts_proved_by_solver=tot['asserts_proved'], solver_s=round(tot['solver_s'], 2), build_s=round(tb, 1)),
                bounds=[r['name'] + ': ' + r['bounds'] for r in runs], runs=ev_runs, traces_validated_against_impl=nval - len(val), traces_diverging=val, violations=reported, unconfirmed_counterexamples=unconf, known_findings=[k['what'] for k in known if k['seen']]))
    os.makedirs(V + '/evidence', exist_ok=True); shape_evidence(ev, tot, ev_runs, complete_all)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s %s: %d runs, %d paths, %d queries (%d unsat, %d unknown), solver %.1fs, wall %.1fs, %s%s' % (pid, tier, len(runs), tot['paths'], tot['queries'], tot['unsat'], tot['unknown'], tot['solver_s'], time.time() - t0, 'complete within bounds' if complete_all else 'INCOMPLETE', ', %d violation(s)' % len(reported) if reported else ''))
    if reported: return 1
    return 0

def shape_evidence(ev, tot, runs, complete):
    c = ev['coverage']; smp = [dict(run=r['name'], inputs={x[0]: '0x' + x[2] for x in r['sample'][:24]}) for r in runs if r.get('sample')]
    c.update(states=tot['paths'], transitions=tot['instrs'], samples=smp[:6] or [dict(run=runs[0]['name'], note='no symbolic input on a completed path')])

def build_replay(work, src, kinds=('asan', 'plain')):
    R = work + '/replay'; os.makedirs(R, exist_ok=True)
    lst = [f for f in sh(['find', REPO + '/src/vm', REPO + '/src/optionals', '-name', '*.c']).stdout.split() if not re.search(r'/(http|sqlite3)\.c$', f)]
    inc = ['-iquote', REPO + '/src/vm', '-iquote', REPO + '/src', '-iquote', REPO + '/src/optionals', '-I' + V + '/rt', '-I' + V + '/harness']
    base = ['-std=gnu11', '-g', '-O0', '-w', '-DDISABLE_HTTP', '-DINCLUDE_SQLITE_LIB', '-fno-omit-frame-pointer']
    exes = {}
    for name, fl in (('asan', ['-fsanitize=address']), ('plain', [])):
        if name not in kinds: continue
        d = R + '/' + name; os.makedirs(d, exist_ok=True)
        def cc(f):
            o = d + '/' + f.replace('/', '_') + '.o'; r = sh(['gcc'] + base + fl + (inc if f in (src, V + '/rt/replay.c') else []) + (['-DSX_REPLAY', '-DSX_WRAP_RAND'] if f in (src, V + '/rt/replay.c') else []) + ['-c', f, '-o', o]); return (o, r)
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(cc, lst + [src, V + '/rt/replay.c']))
        for o, r in rs:
            if r.returncode: print('replay build failed', r.stdout[-2000:]); return {}
        e = d + '/replay'; r = sh(['gcc'] + fl + ['-Wl,' + ','.join('--wrap=' + w for w in ('malloc', 'calloc', 'realloc', 'free', 'reallocate')), '-rdynamic', '-o', e] + [o for o, _ in rs] + ['-lsqlite3', '-luuid', '-lm', '-ldl', '-lpthread'])
        if r.returncode: print('replay link failed', r.stdout[-2000:]); return {}
        exes[name] = e
    return exes

def replay(pid, exes, v, work):
    if not exes: return False, 'no replay binary', ''
    r = v['run']; entry = 'harness' if r['path'].endswith('.du') else 'h_' + r['name'].replace('-', '_')
    d = tempfile.mkdtemp(prefix='rp.', dir=work); inp = d + '/input.txt'
    with open(inp, 'w') as f:
        for n, w, x in v['inputs']: f.write('%s %d %s\n' % (n, w, x))
    env = dict(os.environ, SX_INPUT=inp, SX_ENTRY=entry, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0', TZ='UTC')
    for k, x in r['params'].items(): env['SXP_' + k] = str(x)
    cwd = d + '/cwd'; os.mkdir(cwd)
    def run(cmd, to=20):
        try: p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=to, preexec_fn=limits); return p.returncode, p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired: return 'timeout', ''
    how = None
    rc, err = run([exes['asan']])
    if rc == 99: how = 'assertion failed natively: ' + next((l for l in err.split('\n') if 'assertion failed' in l), '')[:200]
    elif rc == 77: how = 'AddressSanitizer: ' + next((l for l in err.split('\n') if 'ERROR: AddressSanitizer' in l), '')[:200]
    elif rc == 'timeout': how = 'did not terminate within 20 s'
    elif isinstance(rc, int) and rc < 0: how = 'killed by signal %d' % -rc
    if how is None:
        rc2, err2 = run([exes['plain']])
        if rc2 == 99: how = 'assertion failed natively (no sanitizer): ' + next((l for l in err2.split('\n') if 'assertion failed' in l), '')[:200]
        elif rc2 == 'timeout': how = 'did not terminate within 20 s'
        elif isinstance(rc2, int) and rc2 < 0: how = 'killed by signal %d' % -rc2
    if how is None and v['kind'] in ('uninit', 'memory'):
        rc3, err3 = run(['valgrind', '-q', '--error-exitcode=77', '--max-stackframe=8000000', exes['plain']], 120)
        if rc3 == 77: how = 'valgrind: ' + next((l for l in err3.split('\n') if 'Conditional jump' in l or 'Invalid' in l or 'uninitialised' in l), '')[:200]
    if how is None: return False, 'native run gave %s' % rc, ''
    os.makedirs(V + '/evidence/replay', exist_ok=True); rp = '%s/evidence/replay/%s-%s-%d.txt' % (V, pid, r['name'], abs(hash((v['msg'], v['where']))) % 100000)
    with open(rp, 'w') as f:
        f.write('# property %s, run %s (%s)\n# %s: %s\n# at %s\n# params %s\n# native: %s\n' % (pid, r['name'], r['path'], v['kind'], v['msg'], v['where'], r['params'], how)); f.write(open(inp).read()); f.write('# stderr\n' + '\n'.join('# ' + l for l in err.split('\n')[:40]) + '\n')
    return True, how, rp

def witness(exes, r, smp, work):
    d = tempfile.mkdtemp(prefix='w.', dir=work); inp = d + '/input.txt'; cwd = d + '/cwd'; os.mkdir(cwd)
    with open(inp, 'w') as f:
        for n, w, x in smp: f.write('%s %d %s\n' % (n, w, x))
    env = dict(os.environ, SX_INPUT=inp, SX_ENTRY='harness' if r['path'].endswith('.du') else 'h_' + r['name'].replace('-', '_'), TZ='UTC')
    for k, x in r['params'].items(): env['SXP_' + k] = str(x)
    try: return subprocess.run([exes['plain']], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=20, preexec_fn=limits).returncode
    except subprocess.TimeoutExpired: return 'timeout'

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))

if __name__ == '__main__': main()
