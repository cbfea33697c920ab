"""C15: sessions of evaluations, failing lines, tables and history queries against the list of results"""
from . import cli
import os
REPO = os.environ.get('VERIF_REPO', '/repo')
class Zero(float): pass   # a zero whose sign is known
def ans(v): return {'num': float(v), 'sign': -1 if str(v) == '-0.0' else 1} if isinstance(v, Zero) else {'num': v}
def gen(r):
    steps = []; h = []; defs = {}; plainmode = r.random() >= 0.15
    def add(line, v): steps.append([line, ans(v)]); h.append(v)
    if not plainmode: steps.append(['load simplification %s/simplification.ruleset' % REPO, {'out': []}])
    for _ in range(1 + cli.dim(r, 60, 400)):
        k = r.random()
        if k < 0.04 and plainmode: add(*r.choice([('0*(-1)', Zero('-0')), ('(-1)*0', Zero('-0')), ('0*1', Zero(0)), ('10^400', float('inf')), ('-(10^400)', -float('inf')), ('10^400-10^400', float('nan')), ('0*10^400', float('nan'))]))
        elif k < 0.06 and h: steps.append(['@(%s)' % r.choice(['2^32', '2^32+1', '4294967296', '2^33', '2^16', '2^31', '1000000', '2^62', '10^30', '10^300', '2^63', '2^64', '2^64+2^32', str(len(h)), str(len(h) + 255)]), {'err': 1}])
        elif k < 0.35:
            e = cli.gen_expr(r, r.randrange(0, 3), [], {}); v = cli.ev(e, {}, {}); add(cli.tx(e, True), v)
        elif k < 0.5:
            i = r.randrange(0, len(h) + 3) if r.random() < 0.3 else r.randrange(0, len(h)) if h else 0
            form = r.choice(['@%d', '@(%d)', '@ %d', '@(%d+0)'])
            if i < len(h): add(form % i, h[-1 - i] if form != '@(%d+0)' else h[-1 - i])
            else: steps.append([form % i, {'err': 1}])
        elif k < 0.6:
            if h: add(r.choice(['ans', '(ans)', ' ans ']), h[-1])
            else: steps.append(['ans', {'err': 1}])
        elif k < 0.68 and len(h) > 2:
            i, j = r.randrange(len(h)), r.randrange(len(h)); v = h[-1 - i] + h[-1 - j]
            if abs(v) < 2e9 and v == v: add('@%d + @%d' % (i, j), v)
        elif k < 0.72: steps.append([r.choice(['@(-1)', '@(-2)', '@(0-1)']), {'err': 1}])
        elif k < 0.8: steps.append([r.choice(['1/0', '(2', '2 +', 'sin(1,2)', ')', '0^0/0', '2/(3-3)', 'load /nonexistent/x']), {'err': 1}])
        elif k < 0.88: s = r.choice(['a', 'x', 'foo', 'zz']); steps.append([s, {'out': [s]}])
        elif k < 0.92:
            n = 'fn' + 'abcdefgh'[r.randrange(8)]
            if n not in defs: defs[n] = 1; steps.append(['%s(x) = x+1' % n, {'out': []}])
        elif k < 0.96:
            a = r.randrange(5); b = a + r.randrange(4); v = 0.0
            rows = [['%.10f' % x, '%.10f' % (x * 2)] for x in range(a, b + 1)]
            y = r.random()
            if y < 0.1:
                steps.append(['table 2*x ; %d ; %d ; 1 fold 10^400-10^400+0*y ; 0' % (a, b), {'table': rows, 'rest': ['NAN']}]); h.append(float('nan'))
            elif y < 0.5:
                v = float(sum(x * 2 for x in range(a, b + 1)))
                steps.append(['table 2*x ; %d ; %d ; 1 fold x+y ; 0' % (a, b), {'table': rows, 'rest': ['Fold result: %.10g' % v]}]); h.append(v)
            else: steps.append(['table 2*x ; %d ; %d ; 1' % (a, b), {'table': rows, 'rest': []}])
        else: steps.append(['# comment', {'out': []}])
    for i in sorted(r.sample(range(len(h)), min(len(h), 5))): steps.append(['@%d' % i, ans(h[-1 - i])]); h.append(h[-1 - i])
    return {'steps': steps}
def run(repo, d, tier, seed):
    global REPO; REPO = repo
    return cli.run_sessions('C15', repo, d, tier, seed, gen, 'sessions of evaluations, failing lines, tables and history queries')
def replay(repo, d, f): return cli.replay('C15', repo, d, f)
