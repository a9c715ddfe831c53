#!/usr/bin/env python3
"""Runs one property's check:  python3 check.py C01 [quick|thorough]

Builds the property's harnesses from /repo's working tree (headers) into /verif/build/<id>, runs
every unit of every harness (each unit is one deterministic exhaustive enumeration), merges the
counts, rewrites /verif/evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored.  Exit 1: violation (with a VIOLATION line).  Else: error.
"""
import json, os, re, shutil, signal, subprocess, sys, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(HERE, 'harness')
import checks as CK   # the table of harnesses per property

NPROC = os.cpu_count() or 4

def log(*a):
    print(*a, flush=True)

def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' suppresses exactly that key."""
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m: known[(m.group(1), m.group(2))] = m.group(3)
    return known

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:'
           'exitcode=77:max_allocation_size_mb=4096:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=78', LC_ALL='C.UTF-8')
for k in ('CXXFLAGS', 'CPPFLAGS', 'CFLAGS', 'LDFLAGS'): ENV.pop(k, None)

class Exe:
    def __init__(s, src, flags, name, path): s.src, s.flags, s.name, s.path = src, flags, name, path

def compile_one(e, logdir):
    cmd = [e.flags.get('cxx', 'g++')] + e.flags['args'] + ['-I' + REPO, '-I' + H, os.path.join(H, e.src), '-o', e.path] + e.flags.get('libs', [])
    lf = os.path.join(logdir, e.name + '.compile.log')
    rcs = []
    for attempt in range(2):
        with open(lf, 'w') as f:
            f.write(' '.join(cmd) + '\n'); f.flush()
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode == 0: return None
        rcs.append(r.returncode)
        txt = open(lf, errors='replace').read()
        # Only a diagnosed error is a verdict on the program; a killed compiler is retried.
        if ' error: ' in txt and 'internal compiler error' not in txt and 'Killed' not in txt: break
    return lf

failing = 0   # units that failed: once there are ten, the remaining ones are skipped

def run_unit(e, unit, logdir, tier, limit, replay=False):
    base = os.path.join(logdir, e.name + '.' + re.sub(r'[^A-Za-z0-9_.-]', '_', unit) + ('.replay' if replay else ''))
    out, tr, er = base + '.json', base + '.trace', base + '.err'
    for p in (out, tr):
        if os.path.exists(p): os.remove(p)
    global failing
    if failing >= 10 and not replay: return {'unit': unit, 'skipped': True}
    cmd = [e.path, '--unit', unit, '--out', out, '--trace', tr] + (['--thorough'] if tier == 'thorough' else [])
    t0 = time.time()
    with open(er, 'w') as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=ENV, cwd=logdir, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
    dt = time.time() - t0
    trace = ''
    if os.path.exists(tr):
        trace = open(tr, 'rb').read().split(b'\0', 1)[0].decode('utf8', 'replace')
    if rc == 0 and os.path.exists(out):
        r = json.load(open(out)); r['wall'] = dt; r['crash'] = None
        if r['violations'] and not replay: failing += 1
        return r
    if not replay: failing += 1
    err = open(er, errors='replace').read()
    if rc in (3, 4):
        return {'unit': unit, 'error': 'harness error rc=%s %s' % (rc, err[-300:]), 'wall': dt}
    kind = 'hang' if rc in ('timeout', 76) else 'crash'
    summ = ''
    for l in err.splitlines():
        if 'runtime error:' in l or 'ERROR: AddressSanitizer' in l or 'Assertion' in l or 'SUMMARY' in l or 'terminate called' in l:
            summ += l.strip()[:300] + ' | '
    return {'unit': unit, 'crash': kind, 'rc': str(rc), 'trace': trace, 'summary': summ[:1500] or ('exit status %s' % rc), 'err': err[-6000:],
            'violations': [], 'steps': 0, 'traces': 0, 'states': 0, 'samples': [], 'wall': dt}

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CK.CHECKS[pid]
    known = load_known()
    bdir = os.path.join(HERE, 'build', pid)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    rdir = os.path.join(HERE, 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.remove(os.path.join(rdir, f))
    exes = []
    for i, (src, flags, tag) in enumerate(spec['harness'](tier)):
        name = os.path.splitext(os.path.basename(src))[0] + ('.' + tag if tag else '')
        exes.append(Exe(src, flags, name, os.path.join(bdir, name)))
    violations, errors, results = [], [], []
    lock = threading.Lock()
    unit_limit = spec.get('limit', 300 if tier == 'quick' else 3000)

    pool_c = ThreadPoolExecutor(NPROC)
    futs = {e.name: pool_c.submit(compile_one, e, bdir) for e in exes}
    pool_r = ThreadPoolExecutor(NPROC)
    runs = []
    def start(e):
        lf = futs[e.name].result()
        if lf:
            with lock: violations.append(('compile', e, lf))
            return
        ls = subprocess.run([e.path, '--list'] + (['--thorough'] if tier == 'thorough' else []), capture_output=True, text=True, env=ENV)
        if ls.returncode != 0:
            with lock: errors.append('cannot list units of %s: %s' % (e.name, ls.stderr[-500:]))
            return
        for u in ls.stdout.split('\n'):
            if u: 
                f = pool_r.submit(run_unit, e, u, bdir, tier, unit_limit)
                with lock: runs.append((e, u, f))
    starters = [threading.Thread(target=start, args=(e,)) for e in exes]
    for s in starters: s.start()
    for s in starters: s.join()
    if os.environ.get('VERIF_TIMES'): log('    compiled', round(time.time() - t0, 1))
    pool_c.shutdown()
    for e, u, f in runs:
        r = f.result()
        results.append((e, u, r))
    # Replay before report: every failing unit, run again on its own, must fail the same way.
    bad = [(e, u, r) for e, u, r in results if not r.get('skipped') and not r.get('error') and (r['crash'] or r['violations'])]
    rf = {(e.name, u): pool_r.submit(run_unit, e, u, bdir, tier, unit_limit, True) for e, u, r in bad}
    replays = {k: f.result() for k, f in rf.items()}
    pool_r.shutdown()

    # A broken tool chain is an error of the check, not a verdict.
    vi = []   # (key, what, trace, exe, unit)
    for v in violations:
        _, e, lf = v
        probe = os.path.join(bdir, 'probe.cpp')
        open(probe, 'w').write('#include <vector>\n#include <ostream>\nint main(){return 0;}\n')
        r = subprocess.run(['g++', '-std=gnu++20', probe, '-o', probe + '.x'], env=ENV, capture_output=True)
        txt = open(lf, errors='replace').read()
        if r.returncode != 0 or ' error: ' not in txt or 'internal compiler error' in txt or 'Killed' in txt:
            errors.append('cannot compile %s, see %s' % (e.name, lf))
        else:
            first = next((l for l in txt.splitlines() if ' error: ' in l), '')
            vi.append(('program-rejected:' + e.name, 'a valid public-API program of this property no longer compiles: ' + first[:500],
                       open(lf, errors='replace').read()[:8000], e, '(compile)'))
    states = steps = traces = 0
    samples = []
    per_unit = []
    for e, u, r in results:
        if r.get('skipped'): continue
        if r.get('error'): errors.append('%s/%s: %s' % (e.name, u, r['error'])); continue
        if r['crash'] or r['violations']:
            r2 = replays[(e.name, u)]
            if r2.get('error'): errors.append('%s/%s replay: %s' % (e.name, u, r2['error'])); continue
            if r['crash']:
                if r2.get('crash') == r['crash']:
                    key = '%s:%s:%s' % (r['crash'], u, hashlib.sha1(r['trace'].encode()).hexdigest()[:10])
                    vi.append((key, '%s of the real code: %s' % (r['crash'], r2['summary']), r2['trace'] + '\n\n' + r2['err'], e, u))
                elif r['crash'] == 'hang' and not r2.get('crash'):
                    r = r2   # merely slow under load
                else:
                    errors.append('%s/%s: not reproducible (%s then %s)' % (e.name, u, r['crash'], r2.get('crash')))
                    continue
            k2 = {v['key'] for v in r2['violations']}
            for v in r['violations']:
                if v['key'] in k2: vi.append((v['key'], v['what'], v['trace'], e, u))
                else: errors.append('%s/%s: not reproducible: %s' % (e.name, u, v['key']))
        states += r['states']; steps += r['steps']; traces += r['traces']
        per_unit.append({'unit': e.name + '/' + u, 'states': r['states'], 'transitions': r['steps'], 'traces': r['traces'], 'wall_s': round(r['wall'], 2)})
        samples += [u + ': ' + s[:400] for s in r['samples'][:4]]
    # Programs of one group must agree on every digest, whatever the configuration they were built in.
    groups = {}
    for e, u, r in results:
        if e.flags.get('agree') and not r.get('skipped') and not r.get('error') and not r.get('crash'):
            groups.setdefault((e.flags['agree'], u), []).append((e, r))
    def differing(members):
        ref = members[0][1].get('digests', {})
        return [(e, k) for e, r in members[1:] for k in sorted(set(ref) | set(r.get('digests', {}))) if ref.get(k) != r.get('digests', {}).get(k)]
    compared = 0
    for (g, u), members in sorted(groups.items(), key=lambda x: x[0]):
        if len(members) < 2:
            if not vi: errors.append('nothing to compare %s/%s with' % (g, u))
            continue
        compared += sum(len(r.get('digests', {})) for e, r in members[1:])
        if not differing(members): continue
        again = [(e, run_unit(e, u, bdir, tier, unit_limit, True)) for e, r in members]
        if any(r.get('error') or r.get('crash') for e, r in again):
            errors.append('%s/%s: not reproducible' % (g, u)); continue
        d1, d2 = {(e.name, k) for e, k in differing(members)}, differing(again)
        for e, k in d2:
            if (e.name, k) not in d1: continue
            vi.append(('configurations-disagree:%s:%s' % (g, k), '%s gives a different result when built with: %s | than with: %s' % (k, ' '.join(e.flags['args']), ' '.join(members[0][0].flags['args'])),
                       'operation: %s\nfirst program: %s\nsecond program: %s' % (k, members[0][0].path, e.path), e, u))
    # Vacuity guard: every unit has to have observed something.
    for pu in per_unit:
        if pu['transitions'] == 0 and not vi: errors.append('vacuous unit ' + pu['unit'])
    reported, seenk = [], set()
    knownhit = []
    n = 0
    for key, what, trace, e, u in vi:
        if (pid, key) in known:
            if key not in seenk: knownhit.append((key, known[(pid, key)]))
            seenk.add(key); continue
        if key in seenk: continue
        seenk.add(key)
        n += 1
        if n > 30: continue
        rp = os.path.join(rdir, '%s-%d.txt' % (pid, n))
        with open(rp, 'w') as f:
            f.write('property: %s\nkey: %s\nwhat: %s\nharness: %s\nunit: %s\nreplay: %s --unit %r\n(build: %s)\n\nexecution:\n%s\n' % (
                pid, key, what, e.src, u, e.path, u, ' '.join(e.flags['args']), trace))
        reported.append((key, what, rp))
    st = 300
    keep = samples if len(samples) <= st else samples[::max(1, len(samples) // st)]
    keep = [s for i, s in enumerate(keep)][:60]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': states, 'transitions': steps, 'traces_validated_against_impl': traces,
                       'evaluations': traces, 'distinct_nontrivial': states, 'rule': spec['rule'],
                       'samples': keep or ['(none)'], 'exhaustive': not errors, **({'results_compared_between_configurations': compared} if groups else {}), 'bounds': spec['bounds'], 'units': per_unit},
          'assumptions': spec.get('assumptions', []) + CK.COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    if spec.get('level', 'model_checking') == 'model_checking':
        for k in ('evaluations', 'distinct_nontrivial'): ev['coverage'].pop(k)
    else:
        for k in ('states', 'transitions', 'traces_validated_against_impl'): ev['coverage'].pop(k)
        ev['coverage']['real_calls_compared'] = steps
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for key, what in knownhit: log('KNOWN-FINDING: property=%s %s [%s]' % (pid, what, key))
    log('%s %s: %d units, %d states, %d transitions, %d traces, %.1fs' % (pid, tier, len(per_unit), states, steps, traces, time.time() - t0))
    if os.environ.get('VERIF_TIMES'):
        for pu in sorted(per_unit, key=lambda x: -x['wall_s'])[:15]: log('   ', pu)
    if reported:
        for key, what, rp in reported[:8]:
            log('  violation %s: %s' % (key, what[:400]))
            log('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if errors:
        for x in errors: log('ERROR', x)
        sys.exit(2)
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(0)

if __name__ == '__main__':
    main()
