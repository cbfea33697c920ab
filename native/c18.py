"""C18: table commands (ranges in both directions, errors inside, folds, malformed requests) against a model"""
import math
from . import cli
# expressions with exact double semantics: text, function of x (None: error at this point)
def term(r, d, v):
    if d <= 0 or r.random() < 0.2:
        if v and r.random() < 0.6: return v, lambda x: x
        c = r.randrange(0, 7); return str(c), lambda x, c=float(c): c
    k = r.randrange(7); (ta, fa), (tb, fb) = term(r, d - 1, v), term(r, d - 1, v)
    def lift(g): 
        def f(x):
            a, b = fa(x), fb(x)
            return None if a is None or b is None else g(a, b)
        return f
    if k < 2: return '(%s+%s)' % (ta, tb), lift(lambda a, b: a + b)
    if k == 2: return '(%s-%s)' % (ta, tb), lift(lambda a, b: a - b)
    if k == 3: return '(%s*%s)' % (ta, tb), lift(lambda a, b: a * b)
    if k == 4: return '(%s/%s)' % (ta, tb), lift(lambda a, b: None if b == 0 else a / b)
    if k == 5: return 'abs(%s)' % ta, lambda x: (None if fa(x) is None else abs(fa(x)))
    return 'max(%s, %s)' % (ta, tb), lift(lambda a, b: a if a >= b else b)
def num(r, lo, hi):
    k = r.randrange(5); n = r.randrange(lo * 4, hi * 4 + 1) / 4.0
    if k == 0: return n, '%g+0' % n if n >= 0 else '0-%g' % -n
    if k == 1: return n, '(%g)' % n if n >= 0 else '(-%g)' % -n
    return n, '%g' % n
def const_folds(f, isconst):
    return True
def gen(r):
    steps = []; h = []
    fq = r.randrange(3)
    if fq: steps.append(['fq(x) = x*x%+d' % fq, {'out': []}])
    for _ in range(3 + cli.dim(r, 9, 40)):
        k = r.random()
        if k < 0.2:
            v = 'x'; e = r.choice(['x', 'a', 'x+1', '2'])
            bad = ['table %s' % e, 'table %s ; 1' % e, 'table %s ; 1 ; 2' % e, 'table %s ; 1 ; 2 ; 0' % e, 'table %s ; 1 ; 2 ; 1-1' % e, 'table x+y ; 1 ; 2 ; 1', 'table x+y+z ; 1 ; 2 ; 1 fold x ; 1', 'table %s ; t ; 2 ; 1' % e,
                   'table %s ; 1 ; t ; 1' % e, 'table %s ; 1 ; 2 ; t' % e, 'table %s ; 1 ; 2 ; 1 fold z ; 0' % e, 'table %s ; 1 ; 2 ; 1 fold x+y+t ; 0' % e, 'table %s ; 1 ; 2 ; 1 fold x+y ; t' % e, 'table %s ; 1 ; 2 ; 1 fold x+y' % e,
                   'table x + ; 1 ; 2 ; 1', 'table x ; ( ; 2 ; 1', 'table x ; 1 ; 2 + ; 1', 'table x ; 1 ; 2 ; 1 fold x+ ; 0', 'table x ; 1 ; 2 ; 1 fold x+y ; )', 'table 1/0 ; 1 ; 2 ; 1', 'table x ; 1/0 ; 2 ; 1', 'table ; 1 ; 2 ; 1', 'table x ;  ; 2 ; 1', 'table x ; x ; 2 ; 1', 'table x ; 1 ; 2 ; y fold x+y ; 0']
            steps.append([r.choice(bad), {'err': 1}]); continue
        if k < 0.3:
            if h: steps.append(['ans', {'num': h[-1]}]); h.append(h[-1])
            else: steps.append(['ans', {'err': 1}])
            continue
        v = r.choice(['x', 'y', 't', 'foo', 'n_']); const = r.random() < 0.08
        t, f = term(r, r.randrange(0, 4), None if const else v)
        if not const and fq and r.random() < 0.2: t, f = 'fq(%s)' % t, lambda x, g=f: None if g(x) is None else g(x) * g(x) + fq
        if not const and h and abs(h[-1]) < 1e6 and r.random() < 0.2: t, f = t + '+ans', lambda x, g=f, y=h[-1]: None if g(x) is None else g(x) + y
        if not const and v not in t: continue
        # a variable-free subterm that cannot be evaluated refuses the whole request
        (a, ta), (b, tb), (s, ts) = num(r, -6, 12), num(r, -6, 12 + cli.dim(r, 1, 60)), num(r, 0, 3)
        if r.random() < 0.1: b, tb = a, ta
        if r.random() < 0.01: b = a + s * cli.dim(r, 1500, 4000); tb = '%.12g' % b if b >= 0 else '0-%.12g' % -b
        if s == 0: continue
        if r.random() < 0.3: s, ts = -s, '-' + ts if ts[0] not in '(' and '+' not in ts else '-(%s)' % ts
        if ts.startswith('-') and '+0' in ts: continue
        if const and f(0.0) is None: continue
        if bad_const(t): continue
        st = s
        if (a < b and s < 0) or (a > b and s > 0): st = -s
        rows = []; vals = []; x = a
        while (x <= b) if st > 0 else (x >= b):
            y = f(x); rows.append(['%.10f' % x, 'Error' if y is None else '%.10f' % y])
            if y is not None: vals.append(y)
            x += st
            if len(rows) > 4100: break
        if any(abs(y) > 1e12 for y in vals): continue
        sp = lambda: r.choice([' ; ', ';', ' ;', '; '])
        line = 'table ' + t + sp() + ta + sp() + tb + sp() + ts
        rest = []
        if r.random() < 0.5:
            tf, ff = r.choice([('x+y', lambda p, q: p + q), ('x*y', lambda p, q: p * q), ('x-y', lambda p, q: p - q), ('y-x', lambda p, q: q - p), ('max(x,y)', lambda p, q: p if p >= q else q), ('y', lambda p, q: q), ('x', lambda p, q: p), ('x+1', lambda p, q: p + 1), ('2*x+y', lambda p, q: 2 * p + q), ('y*y+x', lambda p, q: q * q + p), ('x+y+y', lambda p, q: p + q + q), ('7', lambda p, q: 7.0)])
            (i, ti) = num(r, -3, 5); acc = i
            for y in vals: acc = ff(acc, y)
            if abs(acc) > 1e100: continue
            line += ' fold ' + tf + sp() + ti; rest = ['Fold result: %.10g' % acc]; h.append(acc)
        steps.append([line, {'table': rows, 'rest': rest}])
    return {'steps': steps}
def bad_const(t):
    """does the text contain a division whose variable-free divisor is zero or a variable-free subterm in error"""
    import re
    # conservative: any division by a variable-free bracket or by 0
    return re.search(r'/0', t) is not None or re.search(r'/(\(|abs|max)', t) is not None and not all_have_var(t)
def all_have_var(t):
    i = 0
    while True:
        i = t.find('/', i)
        if i < 0: return True
        j = i + 1; d = 0; k = j
        while k < len(t):
            if t[k] == '(': d += 1
            if t[k] == ')':
                d -= 1
                if d < 0: break
                if d == 0: k += 1; break
            k += 1
        if not any(v in t[j:k].replace('max', '').replace('abs', '') for v in ('x', 'y', 't', 'foo', 'n_')): return False
        i += 1
def run(repo, d, tier, seed): return cli.run_sessions('C18', repo, d, tier, seed, gen, 'table commands: ranges in both directions, errors inside, folds, malformed requests')
def replay(repo, d, f): return cli.replay('C18', repo, d, f)
