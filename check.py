#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--no-native] [--no-proof]

Decides one property on /repo's current working tree:
 1. the contracts of the functions the property depends on are verified against clang's AST of the
    current sources (vcg/), every obligation discharged by z3;
 2. the property's native harness runs the real code (sanitized build of the current sources)
    against an executable reference: it replays / searches failing inputs, and is the bounded
    stand-in for functions that have no verified contract.
Exit 0: nothing found. Exit 1: VIOLATION line."""
import sys, os, json, time, argparse, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')

def log(*a): print(*a, flush=True)

def proof_part(pid, repo, tier):
    """verify all contracts of the property; returns result dicts"""
    import multiprocessing as mp
    from vcg import verify
    prog, cts, missing = verify.setup(repo)
    todo = [c for c in cts.values() if pid in c.props and not c.trusted]
    byname = {}
    for c in cts.values(): byname.setdefault(c.name, []).append(c)
    seen = set(id(c) for c in todo)
    trusted = [c for c in cts.values() if c.trusted]
    todo.sort(key=lambda c: -c.budget)
    q = mp.Queue(); res = []
    pend = list(todo); running = {}
    factor = 1 if tier == 'quick' else 4
    def work(c, conn):
        try: r = verify.verify_one(prog, cts, c, c.budget * factor)
        except BaseException as x: r = {'function': c.name, 'file': c.file, 'status': 'undecided', 'unsupported': 'internal: %r' % x, 'obligations': [], 'time': 0}
        conn.send(r); conn.close()
    nproc = 8
    while pend or running:
        while pend and len(running) < nproc:
            c = pend.pop(0); a, b = mp.Pipe(False)
            p = mp.Process(target=work, args=(c, b)); p.start(); b.close()
            running[p] = (c, a, time.time())
        for p, (c, a, t0) in list(running.items()):
            done = False
            if a.poll(0):
                try: res.append(a.recv())
                except EOFError: res.append({'function': c.name, 'file': c.file, 'status': 'undecided', 'unsupported': 'worker died', 'obligations': [], 'time': 0})
                done = True
            elif not p.is_alive():
                if not a.poll(0): 
                    res.append({'function': c.name, 'file': c.file, 'status': 'undecided', 'unsupported': 'worker died', 'obligations': [], 'time': 0}); done = True
            elif time.time() - t0 > c.budget * factor + 60:
                p.terminate(); res.append({'function': c.name, 'file': c.file, 'status': 'undecided', 'unsupported': 'time limit', 'obligations': [], 'time': time.time() - t0}); done = True
            if done and res:
                for nme in res[-1].get('called', []):      # the contracts it was checked against are verified as well
                    for k in byname.get(nme, []):
                        if id(k) not in seen and not k.trusted: seen.add(id(k)); pend.append(k)
            if done: p.join(); a.close(); del running[p]
        time.sleep(0.01)
    miss = [c for c in missing if pid in c.props]
    return res, miss, [dict(function=c.name, file=c.file, why=c.trusted) for c in trusted if pid in c.props or not c.props]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-native', action='store_true'); ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--replay'); ap.add_argument('--record-baseline', action='store_true')
    a = ap.parse_args()
    pid = a.pid; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    from native import runner
    if a.replay:
        sys.exit(runner.replay(pid, repo, a.replay))
    violations = []   # (replay path, suffix, text)
    # ---- native search (compiled from the current tree)
    nat = None
    if not a.no_native and runner.has(pid):
        nat = runner.run(pid, repo, tier, seed)
        for f in nat['failures']:
            path = '%s/evidence/replay/%s-%s.json' % (HERE, pid, hashlib.sha1(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10])
            json.dump(f, open(path, 'w'), indent=1)
            violations.append((path, '', f.get('what', '')))
    # ---- proofs
    res, miss, trusted = ([], [], [])
    err = None
    if not a.no_proof:
        try: res, miss, trusted = proof_part(pid, repo, tier)
        except Exception as x:
            err = '%s' % x; traceback.print_exc(file=sys.stderr)
    bl = {}
    bp = HERE + '/specs/baseline.json'
    if os.path.exists(bp): bl = json.load(open(bp))
    failed = []
    for r in res:
        k = '%s:%s' % (r['file'], r['function'])
        if a.record_baseline: bl[k] = r['status']
        if r['status'] == 'failed' and bl.get(k) == 'verified':
            obs = [o for o in r['obligations'] if o['status'] == 'failed' and not o['detail'].startswith('loop ')]
            if obs and not r['unsupported']: failed.append((r, obs))
    if a.record_baseline:
        json.dump(bl, open(bp, 'w'), indent=1, sort_keys=True)
    if failed:
        out = {'property': pid, 'kind': 'failed-obligations', 'functions': []}
        for r, obs in failed:
            out['functions'].append({'function': r['function'], 'file': r['file'], 'failed': [dict(obligation=o['label'], line=o['line'], verifier_output=o['detail']) for o in obs]})
            for o in obs[:4]: log('failed obligation: %s (%s:%s): %s' % (r['function'], r['file'], o['line'], o['label']))
        path = '%s/evidence/replay/%s-obligations.json' % (HERE, pid)
        json.dump(out, open(path, 'w'), indent=1)
        if not violations: violations.append((path, ' no-failing-input-found', ''))
    und = [r for r in res if r['status'] not in ('verified',) and not (r['status'] == 'failed' and any(r is x for x, _ in failed))]
    for r in und: log('undecided: %s (%s): %s' % (r['function'], r['status'], r['unsupported'] or '; '.join('%s@%s' % (o['label'], o['line']) for o in r['obligations'] if o['status'] != 'proved')[:200]))
    for c in miss: log('undecided: contract for %s (%s) has no function in the current tree' % (c.name, c.file))
    if err: log('undecided: proof part failed: ' + err)
    # ---- evidence
    nob = sum(len(r['obligations']) for r in res); nok = sum(sum(o['status'] == 'proved' for o in r['obligations']) for r in res)
    cov = {
        'obligations': nob, 'discharged': nok,
        'checker_cmd': 'python3-vt check.py %s' % pid,
        'trusted_base': ['vcg/ (verification-condition generator over clang 18 AST, written for this task)', 'z3 4.x (python API)', 'clang 18 front end', 'x86-64 LP64 data layout']
            + sorted({n for r in res for n in r.get('notes', [])}) + ['assumed contract: %s (%s): %s' % (t['function'], t['file'], t['why']) for t in trusted]
            + ['termination is not proved (partial correctness)'],
        'functions_under_contract': [dict(function=r['function'], file=r['file'], status=r['status'], obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']),
                paths=r.get('paths'), solver_s=r.get('solver_s'), calls_by_contract=r.get('called'), inlined=r.get('inlined'), loops=r.get('loops'), why=r['unsupported']) for r in sorted(res, key=lambda r: (r['file'] or '', r['function']))],
        'functions_verified': sum(r['status'] == 'verified' for r in res), 'functions_undecided': [r['function'] for r in und] + [c.name for c in miss],
        'back_end': 'z3', 'solver_s': round(sum(r.get('solver_s') or 0 for r in res), 2),
    }
    if nat is not None:
        cov['bounded'] = {k: v for k, v in nat.items() if k != 'failures'}
        cov['bounded']['label'] = 'bounded: not counted as proved'
        cov['evaluations'] = nat.get('evaluations', 0); cov['samples'] = nat.get('samples', [])[:5]
        cov['distinct_nontrivial'] = nat.get('distinct', 0); cov['rule'] = nat.get('rule', '')
    level = 'proof'
    man = json.load(open(HERE + '/MANIFEST.json'))
    for c in man['checks']:
        if c['property'] == pid: level = c['level']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    if level == 'other' or True: cov.setdefault('explanation', 'contracts discharged per function; bounded part labelled separately')
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)
    log('%s: %d/%d obligations discharged in %d functions (%d verified, %d undecided); bounded: %s cases; %.1f s' % (
        pid, nok, nob, len(res), cov['functions_verified'], len(und) + len(miss), nat.get('evaluations') if nat else 0, time.time() - t0))
    # ---- known findings
    rc = 0
    for l in open(HERE + '/KNOWN_FINDINGS') if os.path.exists(HERE + '/KNOWN_FINDINGS') else []:
        if l.startswith('finding: property=%s ' % pid): log('KNOWN-FINDING: property=%s %s' % (pid, l.split(' ', 2)[2].strip()))
    for path, suf, what in violations:
        log('VIOLATION property=%s replay=%s%s' % (pid, path, suf)); rc = 1
        if what: log('   ' + what[:500])
    sys.exit(rc)

if __name__ == '__main__': main()
