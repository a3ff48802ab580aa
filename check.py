#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current working tree.
 exit 0: every obligation discharged and every bounded stand-in quiet; exit 1 + VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, re, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()
ID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
P = props.PROPS[ID]
DEADLINE = T0 + (780 if TIER == 'quick' else 7200)
HBUDGET = P.get('budget', 240) if TIER == 'quick' else 1500
EVD = os.path.join(HERE, 'evidence')
REPL = os.path.join(EVD, 'replay', ID)
os.makedirs(EVD, exist_ok=True)
shutil.rmtree(REPL, ignore_errors=True)
os.makedirs(REPL, exist_ok=True)
FRONT = os.path.join(HERE, 'build', 'irvfront')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
SAN = ['-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,array-bounds,return,unreachable,float-cast-overflow', '-fsanitize-trap=all']
IRFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-gline-tables-only', '-w', '-D_GLIBCXX_ASSERTIONS=0', '-U_GLIBCXX_ASSERTIONS']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-DVF_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=null,pointer-overflow,nonnull-attribute,object-size']
STDFLAGS = ['-std=c++17', '-w', '-march=native', '-g1']

def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, cwd=cwd, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return 124, o, r

def left():
    return max(5, DEADLINE - time.time())

class Result:
    pass

violations = []    # (replay path, no_input)
known = []
problems = []

def load_known():
    out = {}
    f = os.path.join(HERE, 'known_findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out
KNOWN = load_known()

def replay_file(name, text):
    p = os.path.join(REPL, re.sub(r'[^A-Za-z0-9_.-]', '_', name)[:80] + '.txt')
    with open(p, 'w') as f:
        f.write(text)
    return p

def build_front():
    if not os.path.exists(FRONT):
        subprocess.check_call(['bash', os.path.join(HERE, 'setup.sh')])

def compile_spec(W, spec):
    src = os.path.join(HERE, 'specs', spec['file'])
    d = os.path.join(W, spec['file'] + hashlib.md5((spec.get('only', '') + str(spec.get('flags', ''))).encode()).hexdigest()[:6])
    os.makedirs(d, exist_ok=True)
    bc = os.path.join(d, 'x.bc')
    fl = IRFLAGS + ([] if spec.get('nosan') else SAN) + spec.get('flags', [])
    rc, o, e = run(['clang++'] + fl + ['-I' + REPO, '-I' + os.path.join(HERE, 'irv'), '-I' + os.path.join(HERE, 'specs'), src, '-o', bc], timeout=300)
    if rc:
        return d, [], 'the contract file does not compile against this tree:\n' + e[-3000:]
    only = spec.get('only' if TIER == 'quick' else 'only_thorough', spec.get('only', '.*'))
    rc, o, e = run([FRONT, bc, d, only], timeout=300)
    if rc:
        return d, [], 'front end failed: ' + e[-2000:]
    return d, [l.strip() for l in o.split('\n') if l.strip()], None

def prove(d, h, budget):
    rep = os.path.join(d, h + '.rep')
    if os.path.exists(rep):
        os.unlink(rep)
    b = min(budget, left() - 20)
    rc, o, e = run([PY, os.path.join(HERE, 'irv', 'verify.py'), os.path.join(d, h + '.json'), rep], timeout=b + 60, env={'IRV_BUDGET': str(b), 'IRV_HARD_MS': '40000' if TIER == 'quick' else '300000'})
    if os.path.exists(rep):
        try:
            return json.load(open(rep))
        except ValueError:
            pass
    return {'harness': h, 'error': 'verifier gave no report (rc %s): %s' % (rc, e[-600:]), 'obligations': [], 'total': 0, 'discharged': 0, 'checks': 0, 'loops': [], 'repo_functions': [], 'replaced': [],
            'solver_time': 0, 'queries': 0, 'covers': {}, 'paths': 0, 'time': 0}

natives = {}
def native_build(W, spec):
    k = spec['file'] + str(spec.get('flags'))
    if k not in natives:
        exe = os.path.join(W, 'native_' + hashlib.md5(k.encode()).hexdigest()[:8])
        rc, o, e = run(['clang++'] + NATFLAGS + spec.get('nflags', spec.get('flags', [])) + ['-I' + REPO, '-I' + os.path.join(HERE, 'irv'), '-I' + os.path.join(HERE, 'specs'), os.path.join(HERE, 'specs', spec['file']),
                        os.path.join(HERE, 'irv', 'native.cpp'), '-o', exe], timeout=300)
        natives[k] = exe if rc == 0 else None
    return natives[k]

ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=9:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=9'}
def model_text(m):
    out = []
    for x in m:
        if x[0] == 'v':
            out.append('v %s %s' % (x[1] or '_', x[2]))
        else:
            out.append('a %s %d %s' % (x[1] or '_', x[3], '-' if x[2] is None else (''.join('%02x' % b for b in x[2]) or '00'[:0])))
    return '\n'.join(out) + '\n'

def confirm(W, spec, rep, bad):
    """replay the verifier's counterexample on the real code; otherwise search. -> (text, confirmed)"""
    h = rep['harness'][len('vf_proof_'):]
    txt = 'property %s\nharness %s (specs/%s)\n' % (ID, h, spec['file'])
    if rep.get('error'):
        txt += 'verifier: %s\n' % rep['error']
    for o in bad[:20]:
        txt += 'obligation %s: [%s] %s %s (%s)\n' % ('FAILED' if o['status'] == 'failed' else 'NOT DISCHARGED', o['kind'], o['label'], o['loc'], o.get('why', 'counterexample' if o.get('model') is not None else ''))
    exe = native_build(W, spec)
    if exe is None:
        return txt + 'native harness does not build\n', False
    for o in bad[:8]:
        if o.get('model') is None or time.time() > DEADLINE - 60:
            continue
        inp = os.path.join(REPL, h + '.input')
        open(inp, 'w').write(model_text(o['model']))
        rc, so, se = run([exe, 'replay', h, inp], timeout=40, env=ASAN)
        if rc not in (0, 2, 3):
            return txt + 'counterexample of the verifier replayed on the real code FAILS (exit %s)\ninput file: %s\n%s\noutput:\n%s%s\nrerun: <native harness> replay %s %s\n' % (rc, inp, model_text(o['model'])[:4000], so[-1000:], se[-3000:], h, inp), True
    if time.time() < DEADLINE - 60 and not spec.get('nosearch'):
        inp = os.path.join(REPL, h + '.found')
        rc, so, se = run([exe, 'search', h, str(8 if TIER == 'quick' else 60), str(SEED), inp], timeout=120, env=ASAN)
        if rc == 1:
            r2, so2, se2 = run([exe, 'replay', h, inp], timeout=40, env=ASAN)
            return txt + 'failing input found on the real code by search around the failed obligation\ninput file: %s\n%s\noutput:\n%s%s\n' % (inp, open(inp).read()[:4000], so, (se2 or se)[-3000:]), True
        txt += 'replay/search on the real code: %s\n' % so.strip()
    return txt, False

def bounded(W, b):
    """one bounded stand-in: a native program over the real code with an oracle"""
    src = os.path.join(HERE, 'bounded', b['file'])
    exe = os.path.join(W, 'b_' + re.sub(r'\W', '_', b['file'] + '_'.join(b.get('flags', []))))
    cc = b.get('cc', 'clang++')
    fl = STDFLAGS + b.get('opt', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=null,pointer-overflow,nonnull-attribute,object-size']) + b.get('flags', [])
    t = time.time()
    rc, o, e = run([cc] + fl + ['-I' + REPO, '-I' + os.path.join(HERE, 'bounded'), src, '-o', exe, '-lpthread'], timeout=500)
    ct = time.time() - t
    if rc:
        return {'b': b, 'rc': 'compile', 'out': '', 'err': e[-3000:], 'ct': ct, 'rt': 0}
    args = [str(x) for x in (b.get('thorough', b.get('quick', [])) if TIER == 'thorough' else b.get('quick', []))]
    t = time.time()
    lim = min(b.get('limit', 420 if TIER == 'quick' else 5000), left())
    d = os.path.join(W, 'cwd_' + os.path.basename(exe))
    os.makedirs(d, exist_ok=True)
    env = dict(ASAN)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=9:allocator_may_return_null=1:detect_stack_use_after_return=1' % (1 if b.get('leaks', True) else 0)
    env['LSAN_OPTIONS'] = 'exitcode=9'
    env['VERIF_SEED'] = str(SEED)
    env['VERIF_TIER'] = TIER
    rc, o, e = run([exe] + args, timeout=lim, env=env, cwd=d)
    return {'b': b, 'rc': rc, 'out': o, 'err': e, 'ct': ct, 'rt': time.time() - t, 'args': args}

def main():
    build_front()
    W = tempfile.mkdtemp(prefix='verif_%s_' % ID)
    try:
        go(W)
    finally:
        shutil.rmtree(W, ignore_errors=True)

def go(W):
    specs = [s for s in P.get('specs', []) if TIER == 'thorough' or not s.get('thorough_only')]
    bnds = [s for s in P.get('bounded', []) if TIER == 'thorough' or not s.get('thorough_only')]
    reports = []
    bres = []
    with ThreadPoolExecutor(JOBS) as ex:
        bf = [ex.submit(bounded, W, b) for b in bnds]
        sf = {ex.submit(compile_spec, W, s): s for s in specs}
        pf = {}
        for f in as_completed(sf):
            s = sf[f]
            d, hs, err = f.result()
            if err or not hs:
                reports.append((s, {'harness': 'vf_proof_' + s['file'], 'error': err or 'no harness', 'obligations': [], 'total': 0, 'discharged': 0, 'checks': 0, 'loops': [], 'repo_functions': [], 'replaced': [], 'solver_time': 0, 'queries': 0,
                                    'covers': {}, 'paths': 0, 'time': 0}))
            for h in hs:
                pf[ex.submit(prove, d, h, s.get('budget', HBUDGET))] = s
        for f in as_completed(pf):
            reports.append((pf[f], f.result()))
        bres = [f.result() for f in bf]
    # bounded results
    binfo = []
    for r in bres:
        b = r['b']
        name = b.get('name', b['file'])
        cases = 0
        for m in re.finditer(r'^CASES (\d+)', r['out'], re.M):
            cases += int(m.group(1))
        for m in re.finditer(r'^FINDING (\S+) (.*)', r['out'], re.M):
            if (ID, m.group(1)) in KNOWN:
                known.append('%s: %s' % (m.group(1), m.group(2)))
            else:
                p = replay_file('finding_' + m.group(1), 'bounded stand-in %s args %s\nfinding %s %s\n%s\n' % (b['file'], r.get('args'), m.group(1), m.group(2), r['out'][-3000:]))
                violations.append((p, False))
        binfo.append({'name': name, 'bound': b.get('bound', ''), 'cases': cases, 'compile_s': round(r['ct'], 1), 'run_s': round(r['rt'], 1), 'samples': re.findall(r'^SAMPLE (.*)', r['out'], re.M)[:5], 'label': 'bounded (not proved)'})
        if r['rc'] == 'compile':
            p = replay_file('bounded_' + name, 'bounded stand-in %s does not compile against this tree\n%s' % (b['file'], r['err']))
            violations.append((p, True))
        elif r['rc'] == 124:
            p = replay_file('bounded_' + name, 'bounded stand-in %s args %s did not end within its time limit (it takes a fraction of it on the pinned tree)\n%s\n%s' % (b['file'], r.get('args'), r['out'][-2000:], r['err'][-2000:]))
            violations.append((p, True))
        elif r['rc'] != 0:
            p = replay_file('bounded_' + name, 'bounded stand-in %s (clang++ %s) args %s VERIF_SEED=%d exit status %s\nfailing history and output:\n%s\n%s\n' % (b['file'], ' '.join(b.get('flags', [])), r.get('args'), SEED, r['rc'], r['out'][-3000:], r['err'][-5000:]))
            violations.append((p, False))
        elif cases == 0:
            p = replay_file('bounded_' + name, 'bounded stand-in %s explored nothing\n%s' % (b['file'], r['out'][-2000:]))
            violations.append((p, True))
    # proof results
    tot = dis = checks = 0
    stime = 0.0
    fns = set()
    loops = []
    by = {}
    hinfo = []
    replaced = []
    for s, rep in sorted(reports, key=lambda x: x[1]['harness']):
        tot += rep['total']; dis += rep['discharged']; checks += rep['checks']; stime += rep['solver_time']
        fns |= set(rep['repo_functions'])
        loops += [dict(l, harness=rep['harness'][9:]) for l in rep['loops']]
        for o in rep['obligations']:
            for k, v in o['by'].items():
                by[k] = by.get(k, 0) + v
        for x in rep.get('replaced', []):
            replaced.append(dict(x, harness=rep['harness'][9:]))
        hinfo.append({'harness': rep['harness'][9:], 'obligations': rep['total'], 'discharged': rep['discharged'], 'checks': rep['checks'], 'paths': rep['paths'], 'solver_s': rep['solver_time'], 'wall_s': rep['time'], 'covers': rep['covers']})
        bad = [o for o in rep['obligations'] if o['status'] != 'discharged']
        if rep.get('error') or bad or rep['total'] == 0:
            txt, conf = confirm(W, s, rep, bad)
            p = replay_file('proof_' + rep['harness'], txt)
            violations.append((p, not conf))
            problems.append(txt)
    ev = {'property': ID, 'tier': TIER, 'seed': SEED, 'level': P['level'],
          'coverage': {'obligations': tot, 'discharged': dis, 'checker_cmd': 'python3 /verif/check.py %s %s' % (ID, TIER), 'trusted_base': props.TRUSTED + P.get('trusted', []),
                       'obligation_instances_checked': checks, 'discharged_by_back_end': by, 'solver_time_s': round(stime, 2), 'harnesses': hinfo, 'functions_under_contract': sorted(short(f) for f in fns),
                       'loops_with_inferred_invariants': loops, 'contracts_assumed_at_calls': replaced, 'bounded_standins': binfo},
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    if P['level'] in ('exploration',):
        ev['coverage']['evaluations'] = sum(b['cases'] for b in binfo)
        ev['coverage']['distinct_nontrivial'] = sum(b['cases'] for b in binfo)
        ev['coverage']['rule'] = 'each case is one operation of a generated history applied to the real container and to its oracle, followed by comparison'
        ev['coverage']['samples'] = [x for b in binfo for x in b['samples']][:5] or ['see bounded_standins']
    if P['level'] == 'other':
        ev['coverage']['explanation'] = P['level_note']
    json.dump(ev, open(os.path.join(EVD, ID + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (ID, k))
    print('%s: obligations %d discharged %d, solver %.1fs, bounded cases %d, wall %.1fs' % (ID, tot, dis, stime, sum(b['cases'] for b in binfo), time.time() - T0))
    if violations:
        # a confirmed violation first
        violations.sort(key=lambda v: v[1])
        for t in problems[:5]:
            sys.stderr.write(t[:2500] + '\n')
        for p, noinp in violations[:10]:
            print('VIOLATION property=%s replay=%s%s' % (ID, p, ' no-failing-input-found' if noinp else ''))
        sys.exit(1)
    sys.exit(0)
def short(f):
    return re.sub(r'^.*?seq/', 'seq/', f)[:160]
main()
