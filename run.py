#!/usr/bin/env python3
"""Driver: builds the executor and the harnesses of one property from the current source tree,
runs every case, replays counterexamples against natively compiled code, writes the evidence."""
import argparse, hashlib, json, os, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PSYM_REPO', '/repo')
sys.path.insert(0, V)
ENG = os.path.join(V, 'engine')
EB = os.path.join(ENG, 'build')

def sh(cmd, timeout=None, env=None, mem=None):
    def lim():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=lim)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace')

def build_engine():
    os.makedirs(EB, exist_ok=True)
    import fcntl
    with open(os.path.join(EB, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['make', '-j8', '-C', ENG, 'B=' + EB])
    if rc: print(out); sys.exit(3)

COMMON = ['-std=c++17', '-fsized-deallocation', '-DPARLAY_VERIF', '-include', V + '/harness/tune.h',
          '-DPARLAY_VERIF_SCHEDULER="' + V + '/harness/verif_scheduler.h"', '-I' + ENG, '-I' + V + '/harness', '-I' + REPO + '/include']
def flags_for(case):
    fl = [f for f in COMMON if not (case.get('real_sched') and f.startswith('-DPARLAY_VERIF_SCHEDULER'))]
    if not case.get('pool'): fl.append('-DPARLAY_USE_STD_ALLOC')
    return fl + list(case.get('defs', []))
IRF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']

def unit_key(case): return hashlib.sha1(json.dumps([case['h'], flags_for(case), case.get('irflags', [])]).encode()).hexdigest()[:12]

def compile_ir(case, wd):
    k = unit_key(case); out = os.path.join(wd, case['h'] + '-' + k + '.bc')
    src = os.path.join(V, 'harness', case['h'] + '.cpp')
    rc, o = sh(['clang++'] + flags_for(case) + IRF + case.get('irflags', []) + ['-emit-llvm', '-c', src, '-o', out + '0'], timeout=400)
    if rc: return None, o
    return out, ''

def link_ir(r):
    out, o = r
    if not out: return r
    rc, o = sh(['llvm-link-18', out + '0', EB + '/rt.bc', '-o', out], timeout=100)
    return (None, o) if rc else (out, '')

def run_case(case, bc, wd, i, end=1e18):
    case = dict(case, time=max(5, min(case.get('time', 60), end - time.time())))
    out = os.path.join(wd, 'case%d.json' % i)
    cmd = [EB + '/psym', bc, '--entry=' + case['entry'], '--out=' + out, '--time=%g' % case.get('time', 60), '--max-viol=%d' % case.get('max_viol', 4)]
    if case.get('race'): cmd.append('--race')
    if case.get('kinds'): cmd.append('--kinds=' + case['kinds'])
    if case.get('conc'): cmd.append('--conc=' + case['conc'])
    for a in case.get('args', []): cmd.append(a)
    for k, v in case.get('params', {}).items(): cmd.append('--param=%s=%d' % (k, v))
    rc, o = sh(cmd, timeout=case.get('time', 60) * 2 + 120, mem=case.get('mem', 12) << 30)
    try: r = json.load(open(out))
    except Exception:
        return {'entry': case['entry'], 'error': 'executor failed rc=%d: %s' % (rc, o[-600:]), 'violations': [], 'complete': False}
    return r

def native_build(case, mode, wd):
    k = unit_key(case); exe = os.path.join(wd, '%s-%s-%s' % (case['h'], k, mode))
    if os.path.exists(exe): return exe, ''
    src = [os.path.join(V, 'harness', case['h'] + '.cpp'), ENG + '/rt/native.cpp']
    fl = flags_for(case) + ['-g', '-O1', '-w', '-pthread', '-rdynamic', '-ldl']
    if mode == 'asan': fl += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    if mode == 'tsan': fl += ['-fsanitize=thread', '-DPSYM_NATIVE_THREADS']
    rc, o = sh(['clang++'] + fl + src + ['-o', exe], timeout=600)
    return (exe, '') if rc == 0 else (None, o)

def replay(case, viol, wd, rdir, prop, idx):
    """Returns (reproduced, path, text)."""
    os.makedirs(rdir, exist_ok=True)
    inp = os.path.join(rdir, '%s-%d.inputs' % (prop, idx))
    write_inputs(inp, case, viol['inputs'])
    kind = viol['kind']
    modes = ['tsan'] if kind == 'race' else ['valgrind'] if kind == 'uninit' else ['asan', 'plain']
    log = ''
    ok = False
    for mode in modes:
        exe, o = native_build(case, 'plain' if mode == 'valgrind' else mode, wd)
        if not exe: log += 'native build failed: ' + o[-1500:]; continue
        cmd = [exe, case['entry'], inp]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='exitcode=66')
        if mode == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no'] + cmd
        tries = 5 if mode == 'tsan' else 1
        for _ in range(tries):
            rc, o = sh(cmd, timeout=60, env=env)
            log += '$ %s\nexit %d\n%s\n' % (' '.join(cmd), rc, o[-3000:])
            if rc == 42: break
            if rc == 124: ok = kind in ('nontermination', 'memory', 'assert'); break
            if rc != 0: ok = True; break
        if ok: break
    rep = os.path.join(rdir, '%s-%d.json' % (prop, idx))
    json.dump({'property': prop, 'harness': case['h'], 'entry': case['entry'], 'params': case.get('params', {}), 'defs': case.get('defs', []), 'kind': kind, 'message': viol['msg'],
               'location': viol['loc'], 'inputs': viol['inputs'], 'schedule': viol.get('schedule', []), 'conc': case.get('conc', ''), 'inputs_file': inp, 'reproduced': ok, 'native_log': log, 'trace': viol.get('trace', [])}, open(rep, 'w'), indent=1)
    return ok, rep, log

def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def matches(kf, prop, case, v):
    if kf.get('property') != prop or kf.get('status') != 'known': return False
    m = kf['match']
    return all([m.get('entry') in (None, case['entry']), m.get('kind') in (None, v['kind']), m.get('msg', '') in v['msg'], m.get('loc', '') in v['loc']])

def check(prop, tier, seed):
    import checks
    t0 = time.time()
    P = checks.PROPS[prop]
    cases = [c for c in P['cases'] if tier == 'thorough' or c.get('tier', 'quick') == 'quick']
    if tier == 'thorough':
        cases = [dict(c, **c.get('thorough', {})) for c in cases]
    if P.get('kinds'): cases = [dict(c, kinds=P['kinds']) for c in cases]
    cases.sort(key=lambda c: -c.get('time', 60))
    wd = os.path.join(V, 'build', '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    rdir = os.path.join(V, 'replay')
    rc = 0
    try:
        with ThreadPoolExecutor(8) as ex:
            os.makedirs(EB, exist_ok=True)
            be = ex.submit(build_engine)
            keys = {}
            for c in cases: keys.setdefault(unit_key(c), c)
            futs = {k: ex.submit(compile_ir, c, wd) for k, c in keys.items()}
            be.result()
            bcs = {k: link_ir(f.result()) for k, f in futs.items()}
            bad = [(keys[k]['h'], o) for k, (b, o) in bcs.items() if not b]
            if bad:
                for h, o in bad: print('ERROR: harness %s does not build against the current tree:\n%s' % (h, o[-3000:]))
            good = [c for c in cases if bcs[unit_key(c)][0]]
        with ThreadPoolExecutor(int(os.environ.get('PSYM_JOBS', '8'))) as ex:
            rf = [ex.submit(run_case, c, bcs[unit_key(c)][0], wd, i, t0 + (600 if tier == 'quick' else 7200)) for i, c in enumerate(good)]
            nf = {k: ex.submit(native_build, keys[k], 'plain', wd) for k in keys if bcs[k][0] and not all(c.get('no_validate') for c in good if unit_key(c) == k)}
            res = [f.result() for f in rf]
            nat = {k: f.result()[0] for k, f in nf.items()}
        val = validate(good, res, nat, wd)
        for m in val['bad']: print('NOTE: a path model behaved differently on native code: %s' % json.dumps(m))
        viols, unconf, known = [], [], []
        n = 0
        seen = set()
        for c, r in zip(good, res):
            for v in r['violations']:
                key = (v['kind'], v['msg'][:60], v['loc'].split(' < ')[0])
                if key in seen: continue
                seen.add(key)
                kf = [k for k in known_findings() if matches(k, prop, c, v)]
                n += 1
                ok, rep, log = replay(c, v, wd, rdir, prop, n)
                if kf: known.append((kf[0], v)); continue
                if ok or c.get('model_replay'): viols.append((v, rep, c))
                else: unconf.append((v, rep, c))
                if len(viols) >= 2: break
            if len(viols) >= 2: break
        for kf, v in {k['id']: (k, v) for k, v in known}.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
        for v, rep, c in unconf:
            print('UNCONFIRMED (not reported as a violation, did not reproduce natively): %s %s at %s [%s %s] see %s' % (v['kind'], v['msg'], v['loc'], c['h'], c['entry'], rep))
        for v, rep, c in viols:
            print('  %s: %s at %s [%s]' % (v['kind'], v['msg'], v['loc'], c['entry']))
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            rc = 1
        inc = []
        for c, r in zip(good, res):
            why = r.get('error') or ('time budget' if r.get('timed_out') else '') or ('; '.join(r.get('unsupported_what', [])[:3])) or ('solver gave up' if r.get('solver_unknown') else '')
            if not r['complete'] and not r['violations']: inc.append({'case': c['entry'], 'params': c.get('params', {}), 'why': why})
            elif not r['violations'] and not r.get('covers'): inc.append({'case': c['entry'], 'params': c.get('params', {}), 'why': 'vacuous: no execution reached the end of the harness'})
        for i in inc: print('INCOMPLETE: %s %s %s' % (i['case'], i['params'], i['why']))
        evidence(prop, tier, seed, P, good, res, inc, viols, unconf, known, time.time() - t0, bad, val)
        if bad and rc == 0: rc = 3
    finally:
        if not os.environ.get('PSYM_KEEP'): shutil.rmtree(wd, ignore_errors=True)
    tot = sum(r.get('queries', 0) for r in res)
    print('%s %s: %d cases, %d paths, %d queries, %d violations, %.1fs' % (prop, tier, len(good), sum(r.get('paths', 0) for r in res), tot, len(viols), time.time() - t0))
    return rc

def evidence(prop, tier, seed, P, cases, res, inc, viols, unconf, known, wall, bad, val):
    S = lambda k: sum(r.get(k, 0) for r in res)
    fns = sorted(set(f for r in res for f in r.get('functions', [])))
    det = []
    for c, r in zip(cases, res):
        d = {'entry': c['entry'], 'memory_model': {'sc': 'every interleaving, sequentially consistent', 'tso': 'every interleaving, store buffers'}.get(c.get('conc'), 'branches of forks in order, race-checked' if c.get('race') else ''), 'bound': c.get('bound', ''), 'params': c.get('params', {}), 'defs': c.get('defs', []), 'complete': r['complete']}
        for k in ('paths', 'completed', 'assume_failed', 'forks', 'instructions', 'asserts', 'assert_queries', 'race_checks', 'queries', 'sat', 'unsat', 'unknown', 'order_decided', 'bdd_decided', 'z3_confirmed', 'normal_form_decided', 'solver_s', 'wall_s', 'covers') + (('visible_operations', 'sleep_set_pruned', 'schedule_bound_hit') if c.get('conc') else ()):
            d[k] = r.get(k, 0)
        d.update({k: r[k] for k in r if k.startswith('mm_')})
        if r.get('error'): d['error'] = r['error']
        det.append(d)
    samples = []
    for c, r in zip(cases, res):
        if r.get('samples'): samples.append({'entry': c['entry'], 'params': c.get('params', {}), 'path_model': ' '.join('%s=%s' % (a, b) for a, b in r['samples'][-1])[:400]})
    cov = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': val['ok'], 'samples': samples[:8],
           'explanation': 'states: symbolic execution paths (each stands for every input satisfying its path condition) plus, in the concurrency cases, thread paths; transitions: IR instructions executed symbolically; '
                          'traces_validated_against_impl: path models of this run executed on the natively compiled code with the same outcome.',
           'branch_forks': S('forks'), 'assertions_decided': S('asserts'), 'race_pairs_decided': S('race_checks'), 'queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'),
           'decided_by_ordering_procedure': S('order_decided'), 'decided_by_bdd': S('bdd_decided'), 'bdd_verdicts_confirmed_by_z3': S('z3_confirmed'), 'symbolic_comparisons_decided_by_normal_form': S('normal_form_decided'), 'solver_s': round(S('solver_s'), 2), 'functions_encoded': fns, 'bounds': P.get('bounds', ''), 'outside': P.get('outside', ''),
           'incomplete': inc, 'cases': det, 'validation_mismatches': val['bad'], 'unconfirmed': [u[0]['msg'] for u in unconf], 'known_findings': sorted(set(k[0]['id'] for k in known)), 'harness_build_failures': [b[0] for b in bad]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'coverage': cov, 'wall_s': round(wall, 2), 'assumptions': P.get('assumptions', []) + checks_common(), 'violations': len(viols)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

def validate(good, res, nat, wd):
    """Run the recorded path models on native code: the engine and the machine must agree."""
    jobs = []
    for i, (c, r) in enumerate(zip(good, res)):
        exe = nat.get(unit_key(c))
        if not exe or c.get('no_validate'): continue
        for j, smp in enumerate(r.get('samples', [])[-4:]):
            p = os.path.join(wd, 'val%d-%d' % (i, j))
            write_inputs(p, c, smp)
            jobs.append((c, exe, p, smp))
    def one(j):
        rc, o = sh([j[1], j[0]['entry'], j[2]], timeout=60)
        return rc, o
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, jobs))
    bad = [{'entry': j[0]['entry'], 'exit': rc, 'log': o[-300:], 'inputs': ' '.join('%s=%s' % (a, b) for a, b in j[3])[:300]} for j, (rc, o) in zip(jobs, out) if rc != 0]
    return {'ok': len(jobs) - len(bad), 'bad': bad}

def write_inputs(path, case, inputs):
    with open(path, 'w') as f:
        for k, v in case.get('params', {}).items(): f.write('param:%s %d\n' % (k, v))
        for n, v in inputs: f.write('%s %s\n' % (n.replace(' ', '_'), v))

def checks_common():
    return ['Bounded: sizes, values and loop bounds are those listed per case; nothing is claimed outside them.',
            'Size thresholds of the library are replaced by small ones through the PARLAY_VERIF hooks (harness/tune.h) so that the block-parallel code paths are inside the bounds.',
            'Allocation never fails; the memory model of the sequential cases is one flat object per allocation.']

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'setup', 'all'])
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.cmd == 'setup': build_engine(); sys.exit(0)
    if a.cmd == 'check': sys.exit(check(a.prop, a.tier, seed))
    import checks
    bad = 0
    for p in sorted(checks.PROPS):
        r = check(p, a.tier, seed); bad |= r
        print('==', p, 'exit', r, flush=True)
    sys.exit(bad)
