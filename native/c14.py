"""C14: sessions of definitions, calls, clears and rejected definitions against a model of the defined functions"""
from . import cli
from .cli import dim
NAMES = ['f', 'g', 'h', 'fa', 'fab', 'ga', 'k_', 'Foo', 'u', 'w', 'ab', 'abc']
NAMES += ['fun_' + c * 7 for c in 'abcdefghijklmnop']
PARAMS = ['x', 'y', 'z', 'p', 'q_', 'xx', 'pa', 'm', 'l', 'o', 'r_']
def gen(r):
    defs = {}; steps = []
    def arity(): return {n: len(d[0]) for n, d in defs.items()}
    def value_step():
        for _ in range(20):
            e = cli.gen_expr(r, r.randrange(1, 4), [], arity())
            if cli.size(e, {}, defs) > 300: continue
            try: v = cli.ev(e, {}, defs)
            except OverflowError: continue
            if abs(v) < 2e9: steps.append([cli.tx(e, True), {'num': v}]); return
    def new(): 
        l = [n for n in NAMES if n not in defs]; return r.choice(l) if l else None
    for _ in range(5 + dim(r, 25, 60)):
        k = r.random()
        n = new()
        if k < 0.3 and n:
            np = r.choice([0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 8, 10]); ps = r.sample([p for p in PARAMS if p not in defs], np)
            e = cli.gen_expr(r, r.randrange(0, 4), ps, arity())
            if cli.size(e, {}, defs) > 60: continue
            sp = r.choice(['', ' '])
            left = (n + (r.choice(['', '()']) if False else '')) if np == 0 else '%s(%s)' % (n, (',' + sp).join(ps))
            try:
                for t in ([1.0] * np, [7.0] * np, [-3.0] * np):
                    if abs(cli.ev(e, dict(zip(ps, t)), defs)) > 1e7: raise OverflowError
            except OverflowError: continue
            steps.append([left + sp + '=' + sp + cli.tx(e, True), {'out': []}])
            defs[n] = (ps, e, dict(defs))
        elif k < 0.6: value_step()
        elif k < 0.75 and n:
            # rejected definitions
            o = r.choice(list(defs)) if defs else None; fo = [m for m in defs if defs[m][0]]
            c = ['%s(x) = x +' % n, '%s(x,y) = x*t' % n, '%s(x, x) = x' % n, '%s(x) = %s(x) + 1' % (n, n), 'sin(x) = x', 'pi = 3', '%s(2) = 3' % n, '%s(x+y) = x' % n,
                 '%s(x) = 1/0' % n, '%s = 2/0' % n, '%s(x) = (x' % n, '%s(x) = x)' % n, '%s = t + 1' % n, '= 3', '2 = 3', '%s(x = 3' % n, '%s(a,b,c,d,l,m,n,o,r,s,t,v) = 3' % n, '%s(x) = sin(x, 2)' % n, '%s = %s + 1' % (n, n), '%s(x,) = x' % n, '%s(x) = ' % n, '(%s) = 2' % n, 'x + %s = 4' % n, '%s(x) = x + (0/0)' % n, 'ans = 3', 'deriv(x) = x']
            k = r.randrange(1, 11); pl = r.sample([p for p in PARAMS if p not in defs], min(k, 10)); args = ', '.join(r.choice(pl + ['1', '2']) for _ in pl)
            wrap = r.choice(['%s(%s)', '1 + %s(%s)', 'sum(1, 2, sin(%s(%s)))', '2 * (3 - %s(%s)) ^ 2', 'max(1, 2, 3, 4, 5, 6, %s(%s))']) % (n, args)
            c += ['%s(%s) = %s' % (n, ', '.join(pl), wrap)] * 4
            # one parameter of several is repeated or no variable, at any place
            ql = r.sample([p for p in PARAMS if p not in defs], r.randrange(2, 11)); i = r.randrange(len(ql)); bl = list(ql); bl[i] = r.choice([ql[i - 1], ql[(i + 1) % len(ql)], r.choice([q for q in ql if q != ql[i]]), '2', 'pi', ql[i] + '+1', '-' + ql[i], 'sin(%s)' % ql[i], ql[i] + '!'])
            c += ['%s(%s) = %s' % (n, ', '.join(bl), r.choice(['3', ql[i - 1], ' + '.join(q for q in ql if q in bl)]))] * 4
            if o: c += ['%s = 4' % o if not defs[o][0] else '%s(x) = 4' % o, '%s(%s) = 3' % (n, o)]
            if fo: o2 = r.choice(fo); c += ['%s(x) = %s(%s)' % (n, o2, ','.join(['x'] * (len(defs[o2][0]) + 1)))]
            s = r.choice(c); steps.append([s, {'err': 1}])
            if n in s and r.random() < 0.5: steps.append([n, {'out': [n]}])
        elif k < 0.85 and defs:
            o = r.choice(list(defs)); steps.append(['clear ' + o, {'out': []}]); del defs[o]
            steps.append([o, {'out': [o]}])
        elif k < 0.88: steps.append(['clear', {'out': []}]); defs = {}
        elif k < 0.93: steps.append([r.choice(['clear sin', 'clear pi', 'clear nosuch', 'clear +']), {'err': 1}])
        else: steps.append(['help', {'names': list(defs)}])
    value_step(); steps.append(['help', {'names': list(defs)}])
    return {'steps': steps}
def run(repo, d, tier, seed): return cli.run_sessions('C14', repo, d, tier, seed, gen, 'sessions of definitions, calls, clears and rejected definitions')
def replay(repo, d, f): return cli.replay('C14', repo, d, f)
