"""Sessions of the real program (sanitized build of the current tree): lines go in through stdin, stdout is cut into
answers by marker lines (undefined variables, printed back as their name), and compared with a model session."""
import os, subprocess, random, time, json, re, math
from concurrent.futures import ThreadPoolExecutor
from . import runner

def _nums(k):
    return [float(x) for x in runner.ENV.get(k, '').split(',') if x]
def dim(r, small, mx=40):
    """a size: mostly below small, at times up to mx, at times near a number written into the current sources"""
    x = r.random()
    if x < 0.84: return r.randrange(small)
    new = [v for v in _nums('VERIF_NEW') if v <= mx + 2]
    if x < 0.94 and new: v = int(r.choice(new)) + r.randrange(-2, 3)
    elif x < 0.96 and _nums('VERIF_DICT'): v = int(r.choice(_nums('VERIF_DICT'))) + r.randrange(-2, 3)
    else: return r.randrange(mx + 1)
    return min(max(v, 0), mx)
def marker(i):
    s = ''
    while True:
        s += 'abcdefghij'[i % 10]; i //= 10
        if i == 0: return 'zzq' + s + 'q'
def run_prog(exe, data, args=(), cwd=None, timeout=60, leaks=True):
    env = runner.ENV if leaks else dict(runner.ENV, ASAN_OPTIONS=runner.ENV.get('ASAN_OPTIONS', '') + ':detect_leaks=0')
    try:
        p = subprocess.run([exe] + list(args), input=data.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=timeout)
        return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired: return None, '', ''
ANSI = re.compile('\x1b[^m]*m')
def plain(s): return ANSI.sub('', s)

def crashed(rc, err):
    if rc is None: return 'the program does not end'
    if 'LeakSanitizer has encountered a fatal error' in err: return None
    if rc < 0 or rc in (97, 98, 99):
        l = [x for x in err.splitlines() if 'ERROR: ' in x or 'runtime error' in x]
        return 'the program dies (%s): %s' % (rc, l[0] if l else err[-300:])
    return None

def play(exe, case, cwd):
    """case: {'steps': [[line, expect]...], 'files': {name: text}}; expect: {'out': [lines]} | {'err': 1} | {'any': 1} | {'num': x} | {'re': pattern}"""
    for n, t in case.get('files', {}).items(): open(os.path.join(cwd, n), 'w').write(t)
    data = ''; marks = []
    for i, (l, e) in enumerate(case['steps']): data += l + '\n' + marker(i) + '\n'
    rc, out, err = run_prog(exe, data, cwd=cwd)
    c = crashed(rc, err)
    if c: return c
    got = []; cur = []; i = 0
    for l in out.split('\n'):
        if i < len(case['steps']) and plain(l) == marker(i): got.append(cur); cur = []; i += 1
        else: cur.append(l)
    if len(got) != len(case['steps']): return 'line %d is not answered: %r' % (len(got), case['steps'][len(got)][0])
    bad = False
    for (l, e), g in zip(case['steps'], got):
        if 'any' in e: continue
        if 'err' in e:
            bad = True
            if g: return 'line %r: error expected, got %r' % (l, g)
        elif 'out' in e:
            if [plain(x) for x in g] != e['out']: return 'line %r: %r expected, got %r' % (l, e['out'], g)
        elif 'num' in e:
            ok = len(g) == 1
            if ok:
                try: v = float(plain(g[0])); ok = v == e['num'] or (v != v and e['num'] != e['num']) or abs(v - e['num']) <= 2e-9 * abs(e['num']) < math.inf; ok = ok and ('sign' not in e or plain(g[0]).startswith('-') == (e['sign'] < 0))
                except ValueError: ok = False
            if not ok: return 'line %r: %r expected, got %r' % (l, e['num'], g)
        elif 'table' in e:
            rows = []
            for x in g[:len(e['table'])]: rows.append(plain(x).split())
            if len(set(len(plain(x)) for x in g[:len(e['table'])])) > 1: return 'line %r: rows of different width' % l
            if rows != e['table']: 
                k = next((k for k in range(len(e['table'])) if k >= len(rows) or rows[k] != e['table'][k]), 0)
                return 'line %r: row %d is %r, expected %r' % (l, k, rows[k] if k < len(rows) else None, e['table'][k])
            rest = [plain(x) for x in g[len(e['table']):]]
            if e['rest'] == ['NAN'] and len(rest) == 1 and re.match(r'Fold result: -?nan$', rest[0]): rest = ['NAN']
            if rest != e['rest']: return 'line %r: after the table %r expected, got %r' % (l, e['rest'], rest)
        elif 'names' in e:
            t = [plain(x) for x in g]; 
            k = t.index('User-defined functions and constants:') + 1 if 'User-defined functions and constants:' in t else len(t)
            names = sorted(re.match(r'\s*([A-Za-z_]+)', x).group(1) if re.match(r'\s*([A-Za-z_]+)', x) else x for x in t[k:])
            if names != sorted(e['names']): return 'defined are %r, expected %r' % (names, e['names'])
    if not any('any' in e for l, e in case['steps']):
        if (rc == 0) != (not bad): return 'exit status %s although %s line failed' % (rc, 'a' if bad else 'no')
    return None

def run_sessions(pid, repo, d, tier, seed, gen, rule, player=play, budget=None):
    exe, err = runner.build(repo, d)
    if exe is None: return {'failures': [], 'evaluations': 0, 'error': 'program does not build: ' + err[:1500]}
    budget = budget or (20 if tier == 'quick' else 240)
    t0 = time.time(); fails = []; n = [0]; lines = [0]; distinct = set(); samples = []
    def worker(w):
        rnd = random.Random(seed * 1000 + w); cwd = '%s/w%d' % (d, w); os.makedirs(cwd, exist_ok=True)
        while time.time() - t0 < budget and not fails:
            case = gen(rnd); r = player(exe, case, cwd); n[0] += 1; lines[0] += len(case.get('steps', case.get('lines', [])))
            for s in case.get('steps', []): distinct.add(s[0])
            if 'lines' in case: distinct.add('\n'.join(map(str, case['lines'])))
            if len(samples) < 5: samples.append(json.dumps(case)[:400])
            if r: 
                case = shrink(case, lambda c: player(exe, c, cwd)); r = player(exe, case, cwd) or r
                fails.append({'property': pid, 'kind': 'native', 'what': r, 'case': case})
    with ThreadPoolExecutor(8) as ex: list(ex.map(worker, range(8)))
    return {'failures': fails[:1], 'evaluations': lines[0], 'sessions': n[0], 'distinct': len(distinct), 'rule': rule, 'samples': samples}
def shrink(case, f, tries=60):
    """drops trailing steps after the failure; expectations of earlier lines do not depend on later ones"""
    if 'steps' not in case: return case
    for k in range(1, len(case['steps'])):
        if tries <= 0: break
        tries -= 1
        c = dict(case); c['steps'] = case['steps'][:k]
        if f(c): return c
    return case
def replay(pid, repo, d, f, player=play):
    exe, err = runner.build(repo, d)
    if exe is None: print(err); return 2
    r = player(exe, f['case'], d); print('replayed:', r or 'holds'); return 1 if r else 0

# ---- expressions over exactly representable integers
def ev(e, env, defs):
    k = e[0]
    if k == 'n': return float(e[1])
    if k == 'v': return env[e[1]]
    if k == 'call':
        ps, body, bd = defs[e[1]]
        return ev(body, dict(zip(ps, [ev(a, env, defs) for a in e[2]])), bd)
    if k == 'c': return ev(defs[e[1]][1], {}, defs[e[1]][2])
    a = [ev(x, env, defs) for x in e[1:]]
    if k == '+': return a[0] + a[1]
    if k == '-': return a[0] - a[1]
    if k == '*': return a[0] * a[1]
    if k == 'abs': return abs(a[0])
    if k == 'max': return max(a)
    if k == 'min': return min(a)
    if k == 'sum': return sum(a)
    if k == 'neg': return -a[0]
    raise KeyError(k)
def tx(e, top=False):
    k = e[0]
    if k == 'n': return str(e[1])
    if k in ('v', 'c'): return e[1]
    if k == 'call': return '%s(%s)' % (e[1], ', '.join(tx(a) for a in e[2]))
    if k in '+-*': return '(%s%s%s)' % (tx(e[1]), k, tx(e[2])) if not top else '%s %s %s' % (tx(e[1]), k, tx(e[2]))
    if k == 'neg': return '(-%s)' % tx(e[1])
    return '%s(%s)' % (k, ','.join(tx(x) for x in e[1:]))
def gen_expr(r, d, vs, fs):
    """vs: variables, fs: {name: arity} of user functions"""
    if d <= 0 or r.random() < 0.2:
        if vs and r.random() < 0.6: return ('v', r.choice(vs))
        cs = [f for f in fs if fs[f] == 0]
        if cs and r.random() < 0.4: return ('c', r.choice(cs))
        return ('n', r.randrange(0, 8))
    k = r.randrange(9)
    ff = [f for f in fs if fs[f] > 0]
    if k < 3: return ('+-*'[r.randrange(3)], gen_expr(r, d - 1, vs, fs), gen_expr(r, d - 1, vs, fs))
    if k == 3: return (r.choice(['abs', 'neg']), gen_expr(r, d - 1, vs, fs))
    if k == 4: return (r.choice(['max', 'min', 'sum']),) + tuple(gen_expr(r, d - 1, vs, fs) for _ in range(max(1, dim(r, 4, 24) if d < 3 else r.randrange(1, 4))))
    if ff and k > 5:
        f = r.choice(ff); return ('call', f, [gen_expr(r, d - 1, vs, fs) for _ in range(fs[f])])
    return ('-', gen_expr(r, d - 1, vs, fs), gen_expr(r, d - 1, vs, fs))
def size(e, env, defs):
    """nodes of the expression after all calls have been replaced by their definition"""
    k = e[0]
    if k == 'n': return 1
    if k == 'v': return env.get(e[1], 1)
    if k == 'call': return size(defs[e[1]][1], dict(zip(defs[e[1]][0], [size(a, env, defs) for a in e[2]])), defs[e[1]][2])
    if k == 'c': return size(defs[e[1]][1], {}, defs[e[1]][2])
    return 1 + sum(size(x, env, defs) for x in e[1:])
