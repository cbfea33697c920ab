"""Native harnesses: the real sources of the current tree, compiled with sanitizers, against executable references."""
import os, sys, json, subprocess, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def has(pid): return os.path.exists('%s/%s.c' % (HERE, pid.lower())) or os.path.exists('%s/%s.py' % (HERE, pid.lower()))

def sources(repo):
    r = []
    for d, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            if f.endswith('.c'): r.append(os.path.join(d, f))
    return sorted(r)
def incs(repo): return sorted({d for d, _, _ in os.walk(repo + '/src')})
def build(repo, out, main_c=None, san=True, extra=()):
    """compile all sources of the tree (main.c replaced by the harness) in parallel"""
    obj = out + '/obj'; os.makedirs(obj, exist_ok=True)
    jobs = []
    flags = ['-g', '-O1', '-std=gnu99', '-w', '-DINSTALL_PATH="/nonexistent"'] + (SAN if san else []) + list(extra)
    srcs = sources(repo)
    if main_c: srcs = [s for s in srcs if not s.endswith('/client/main.c')] + [main_c]
    objs = []
    for i, s in enumerate(srcs):
        o = '%s/%d.o' % (obj, i); objs.append(o)
        inc = ['-I' + x for x in incs(repo)] + (['-I' + HERE] if s == main_c else []) 
        jobs.append(['gcc'] + flags + inc + ['-c', s, '-o', o])
    run = []
    err = ''
    while jobs or run:
        while jobs and len(run) < 8: run.append((subprocess.Popen(jobs[0], stderr=subprocess.PIPE), jobs.pop(0)))
        p, j = run.pop(0); e = p.communicate()[1]
        if p.returncode != 0: err += ' '.join(j) + '\n' + e.decode()[:2000]
    if err: return None, err
    exe = out + '/prog'
    p = subprocess.run(['gcc'] + (SAN if san else []) + objs + ['-o', exe, '-lm'], stderr=subprocess.PIPE)
    if p.returncode != 0: return None, p.stderr.decode()[:3000]
    return exe, ''
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98', LSAN_OPTIONS='exitcode=97')

def run(pid, repo, tier, seed):
    from . import literals
    try: ENV.update(literals.env(repo))
    except Exception as x: print('literals: %r' % x)
    py = '%s/%s.py' % (HERE, pid.lower())
    d = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        if os.path.exists(py):
            import importlib
            return importlib.import_module('native.' + pid.lower()).run(repo, d, tier, seed)
        return run_c(pid, repo, d, tier, seed)
    finally: shutil.rmtree(d, ignore_errors=True)

def run_c(pid, repo, d, tier, seed, budget=None):
    """harness protocol: prog SEED BUDGET_SECONDS CASEFILE; it writes the case about to be run into CASEFILE,
    prints 'FAIL <text>' and exits 1 on a mismatch, prints 'COUNT n distinct m', 'RULE text' and 'SAMPLE text'."""
    exe, err = build(repo, d, '%s/%s.c' % (HERE, pid.lower()))
    if exe is None:
        return {'failures': [], 'evaluations': 0, 'error': 'harness does not build: ' + err[:1500]}
    budget = budget or (25 if tier == 'quick' else 300)
    return run_exe(pid, exe, d, seed, budget)
def run_exe(pid, exe, d, seed, budget, workers=6, extra=()):
    ps = []
    for w in range(workers):
        cf = '%s/case%d' % (d, w)
        of = open('%s/out%d' % (d, w), 'wb')
        ps.append((subprocess.Popen([exe, str(seed * 100 + w), str(budget), cf, str(w)] + list(extra), stdout=of, stderr=subprocess.STDOUT, env=ENV, cwd=d), cf, of))
    t0 = time.time(); fails = []; ev = 0; dist = 0; rule = ''; samples = []; err = []
    for w, (p, cf, of) in enumerate(ps):
        hang = False
        try: p.wait(max(1, budget * 2 + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); hang = True
        of.close()
        txt = open(of.name, errors='replace').read()
        case = open(cf, errors='replace').read() if os.path.exists(cf) else ''
        for l in txt.splitlines():
            if l.startswith('COUNT '):
                x = l.split(); ev += int(x[1]); dist += int(x[3])
            elif l.startswith('RULE '): rule = l[5:]
            elif l.startswith('SAMPLE ') and len(samples) < 8: samples.append(l[7:])
        if hang: fails.append({'property': pid, 'kind': 'native', 'what': 'the call does not return', 'case': case, 'output': txt[-1500:], 'worker': w, 'seed': seed})
        elif 'LeakSanitizer has encountered a fatal error' in txt and 'COUNT ' in txt: err.append('leak check not possible here')
        elif p.returncode == 2: err.append(txt[-500:])
        elif p.returncode != 0:
            fl = [l for l in txt.splitlines() if l.startswith('FAIL ') or 'ERROR: ' in l or 'runtime error' in l or 'Assertion' in l]
            fails.append({'property': pid, 'kind': 'native', 'what': (fl[0] if fl else 'exit status %s' % p.returncode), 'case': case, 'output': txt[-3000:], 'worker': w, 'seed': seed})
    return {'failures': fails[:1], 'evaluations': ev, 'distinct': dist, 'rule': rule, 'samples': samples, 'errors': err}

def replay(pid, repo, path):
    from . import literals
    ENV.update(literals.env(repo))
    f = json.load(open(path)); print(json.dumps(f, indent=1)[:4000])
    if f.get('kind') != 'native': return 0
    d = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        py = '%s/%s.py' % (HERE, pid.lower())
        if os.path.exists(py):
            import importlib
            return importlib.import_module('native.' + pid.lower()).replay(repo, d, f)
        exe, err = build(repo, d, '%s/%s.c' % (HERE, pid.lower()))
        p = subprocess.run([exe, str(f['seed'] * 100 + f['worker']), '60', d + '/case', str(f['worker'])], env=ENV, cwd=d)
        return 1 if p.returncode else 0
    finally: shutil.rmtree(d, ignore_errors=True)
