"""arith_evaluation.c, propositional_evaluation.c: one table of the built-in operators: position (= id), name, placement, arity, value, errors"""
from .tree import *
from .tree2 import *
from .history import val
AF = 'src/client/core/arith_evaluation.c'; PF = 'src/client/simplification/propositional_evaluation.c'
DA = z3.ArraySort(I, D)
def F(x): return z3.FPVal(float(x), D)
PINF, NINF, ONE, ZERO = z3.fpPlusInfinity(D), z3.fpMinusInfinity(D), F(1), F(0)
gt, lt, le, ge, eq, ne = z3.fpGT, z3.fpLT, z3.fpLEQ, z3.fpGEQ, z3.fpEQ, z3.fpNEQ
def m(name, *a): return mathfn(name, len(a))(*a)
trunc = lambda x: m('trunc', x)
# folds over the operands: value for the first n operands
maxp, minp, sump, prodp = [Function(n, DA, I, D) for n in ('maxp', 'minp', 'sump', 'prodp')]
sqp = Function('sqp', DA, D, I, D)
# iterated definitions on numbers
prodi = Function('falling', D, D, D)            # falling(i, r) = r * i * (i-1) * ... (until the factor is at most 1 or the product is infinite)
bini = Function('binl', D, D, D, D, D)          # binl(n, k, i, r) = r * prod_{i<=j<=k} (n-k+j)/j
dgcd = Function('dgcd', D, D, D)                # greatest common divisor of two non-negative whole numbers
fibo = Function('fibo', I, I)
def ax_eval():
    A = Const('A!e', DA); n, = Ints('n!e'),
    n = Int('n!e'); a, b, k, r, x = Consts('a!e b!e k!e r!e x!e', D)
    st = lambda f, z, step: [ForAll([A], f(A, IntVal(0)) == z, patterns=[f(A, IntVal(0))]),
                             ForAll([A, n], Implies(n >= 0, f(A, n + 1) == step(f(A, n), Select(A, n))), patterns=[z3.MultiPattern(f(A, n), Select(A, n))])]
    return (st(maxp, NINF, lambda p, y: If(gt(y, p), y, p)) + st(minp, PINF, lambda p, y: If(lt(y, p), y, p)) + st(sump, ZERO, lambda p, y: lg.dadd(p, y)) + st(prodp, ONE, lambda p, y: lg.dmul(p, y)) + [
        ForAll([a, b], lg.dadd(a, b) == lg.dadd(b, a), patterns=[lg.dadd(a, b)]), ForAll([a, b], lg.dmul(a, b) == lg.dmul(b, a), patterns=[lg.dmul(a, b)]),
        ForAll([A, x], sqp(A, x, IntVal(0)) == ZERO, patterns=[sqp(A, x, IntVal(0))]),
        ForAll([A, x, n], Implies(n >= 0, sqp(A, x, n + 1) == lg.dadd(sqp(A, x, n), m('pow', lg.dsub(Select(A, n), x), F(2)))), patterns=[z3.MultiPattern(sqp(A, x, n), Select(A, n))]),
        ForAll([k, r], Implies(Not(And(gt(k, ONE), Not(z3.fpIsInf(r)))), prodi(k, r) == r), patterns=[prodi(k, r)]),
        ForAll([k, r], Implies(And(gt(k, ONE), Not(z3.fpIsInf(r))), prodi(k, r) == prodi(lg.dadd(k, F(-1)), lg.dmul(r, k))), patterns=[z3.MultiPattern(prodi(k, r), lg.dmul(r, k))]),
        ForAll([a, k, x, r], Implies(Not(le(x, k)), bini(a, k, x, r) == r), patterns=[bini(a, k, x, r)]),
        ForAll([a, k, x, r], Implies(le(x, k), bini(a, k, x, r) == bini(a, k, lg.dadd(x, ONE), lg.ddiv(lg.dmul(r, lg.dadd(lg.dsub(a, k), x)), x))), patterns=[z3.MultiPattern(bini(a, k, x, r), lg.dadd(x, ONE))]),
        ForAll([a, b], Implies(Not(gt(b, ZERO)), dgcd(a, b) == If(eq(a, ZERO), b, a)), patterns=[dgcd(a, b)]),
        ForAll([a, b], Implies(gt(b, ZERO), dgcd(a, b) == dgcd(b, m('fmod', a, b))), patterns=[z3.MultiPattern(dgcd(a, b), m('fmod', a, b))]),
    ] + ax_fib())
def ax_fib():
    n = Int('n!f')
    return [fibo(IntVal(0)) == 0, fibo(IntVal(1)) == 1, ForAll([n], Implies(n >= 2, fibo(n) == fibo(n - 1) + fibo(n - 2)), patterns=[fibo(n)])]
def absd(x): return z3.fpAbs(x)
def binom(a, b):
    n = absd(trunc(a)); k = absd(trunc(b)); kk = If(gt(lg.dmul(F(2), k), n), lg.dsub(n, k), k)
    return If(eq(k, ZERO), ONE, If(gt(k, n), ZERO, bini(n, kk, ONE, ONE)))
def gcd(a, b):
    x, y = absd(trunc(a)), absd(trunc(b))
    return If(eq(x, ZERO), y, dgcd(x, y))
def fibd(x):
    l = lg.d2i(x)
    return If(l >= 0, lg.i2d(fibo(l)), If(l % 2 == 0, lg.i2d(-fibo(-l)), lg.i2d(fibo(-l))))
def fact(x): return If(z3.fpIsInf(x), PINF, prodi(trunc(x), ONE))
DYN = -1
PRE, INF_, POST, FUN = 'OP_PLACE_PREFIX', 'OP_PLACE_INFIX', 'OP_PLACE_POSTFIX', 'OP_PLACE_FUNCTION'
OK, HIST, DERIV, UNK, DIV0, CPLX = 'LISTENERERR_SUCCESS', 'LISTENERERR_HISTORY_NOT_SET', 'LISTENERERR_IMPOSSIBLE_DERIV', 'LISTENERERR_UNKNOWN_OP', 'LISTENERERR_DIVISION_BY_ZERO', 'LISTENERERR_COMPLEX_SOLUTION'
no = lambda *a: []
def f1(name): return lambda A, n, h: m(name, A[0])
# name, placement, arity, value(A, n, h), errors(A, n, h) -> [(condition, error)]     A: operands, n: their number, h: history
TABLE = [
    ('$', PRE, 1, lambda A, n, h: A[0], no),
    ('@', PRE, 1, lambda A, n, h: h.at(A[0]), lambda A, n, h: [(Not(h.has(A[0])), HIST)]),
    ("'", POST, 1, None, lambda A, n, h: [(TRUE, DERIV)]),
    ('deriv', FUN, 2, None, lambda A, n, h: [(TRUE, DERIV)]),
    ('+', INF_, 2, lambda A, n, h: lg.dadd(A[0], A[1]), no),
    ('-', INF_, 2, lambda A, n, h: lg.dsub(A[0], A[1]), no),
    ('*', INF_, 2, lambda A, n, h: lg.dmul(A[0], A[1]), no),
    ('/', INF_, 2, lambda A, n, h: lg.ddiv(A[0], A[1]), lambda A, n, h: [(eq(A[1], ZERO), DIV0)]),
    ('^', INF_, 2, lambda A, n, h: m('pow', A[0], A[1]), lambda A, n, h: [(And(eq(A[0], ZERO), le(A[1], ZERO)), DIV0), (And(lt(A[0], ZERO), lt(A[1], ONE), ne(A[1], trunc(A[1]))), CPLX)]),
    ('C', INF_, 2, lambda A, n, h: binom(A[0], A[1]), no),
    ('mod', INF_, 2, lambda A, n, h: m('fmod', A[0], A[1]), no),
    ('+', PRE, 1, lambda A, n, h: A[0], no),
    ('-', PRE, 1, lambda A, n, h: z3.fpNeg(A[0]), no),
    ('!', POST, 1, lambda A, n, h: fact(A[0]), no),
    ('%', POST, 1, lambda A, n, h: lg.ddiv(A[0], F(100)), no),
    ('exp', FUN, 1, f1('exp'), no),
    ('root', FUN, 2, lambda A, n, h: m('pow', A[0], lg.ddiv(ONE, A[1])), lambda A, n, h: [(Not(ge(A[0], ZERO)), CPLX)]),
    ('sqrt', FUN, 1, f1('sqrt'), lambda A, n, h: [(Not(ge(A[0], ZERO)), CPLX)]),
    ('log', FUN, 2, lambda A, n, h: lg.ddiv(m('log', A[0]), m('log', A[1])), no),
    ('ln', FUN, 1, f1('log'), no), ('ld', FUN, 1, f1('log2'), no), ('lg', FUN, 1, f1('log10'), no),
] + [(f, FUN, 1, f1(f), no) for f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh')] + [
    ('max', FUN, DYN, lambda A, n, h: maxp(A.arr, n), no), ('min', FUN, DYN, lambda A, n, h: minp(A.arr, n), no),
    ('abs', FUN, 1, lambda A, n, h: absd(A[0]), no)] + [(f, FUN, 1, f1(f), no) for f in ('ceil', 'floor', 'round', 'trunc')] + [
    ('frac', FUN, 1, lambda A, n, h: lg.dsub(A[0], m('floor', A[0])), no),
    ('sgn', FUN, 1, lambda A, n, h: If(lt(A[0], ZERO), F(-1), If(gt(A[0], ZERO), ONE, ZERO)), no),
    ('sum', FUN, DYN, lambda A, n, h: sump(A.arr, n), no), ('prod', FUN, DYN, lambda A, n, h: prodp(A.arr, n), no),
    ('avg', FUN, DYN, lambda A, n, h: If(n == 0, ZERO, lg.ddiv(sump(A.arr, n), lg.i2d(n))), no),
    ('gcd', FUN, 2, lambda A, n, h: gcd(A[0], A[1]), no),
    ('lcm', FUN, 2, lambda A, n, h: lg.ddiv(absd(lg.dmul(trunc(A[0]), trunc(A[1]))), gcd(A[0], A[1])), no),
    ('rand', FUN, 2, 'rand', no),
    ('fib', FUN, 1, lambda A, n, h: fibd(A[0]), no),
    ('gamma', FUN, 1, f1('tgamma'), no),
    ('var', FUN, DYN, lambda A, n, h: lg.ddiv(sqp(A.arr, lg.ddiv(sump(A.arr, n), lg.i2d(n)), n), lg.i2d(n)), no),
] + [(c, FUN, 0, (lambda v: lambda A, n, h: F(v))(v), no) for c, v in (('pi', 3.14159265359), ('e', 2.71828182846), ('phi', 1.61803398874), ('clight', 299792458), ('csound', 343.2))] + [
    ('ans', FUN, 0, lambda A, n, h: h.last(), lambda A, n, h: [(Not(h.some()), HIST)]),
]
class Args:
    def __init__(s, arr): s.arr = arr
    def __getitem__(s, k): return Select(s.arr, IntVal(k))
class Hist:
    def __init__(s, v): s.v = v
    def idx(s, x):
        k = lg.d2i(x); return If(k < 0, k + 2**64, k)
    def has(s, x): return s.idx(x) < s.v.count
    def at(s, x): return val(Select(s.v.A, s.v.count - 1 - s.idx(x)))
    def some(s): return s.v.count > 0
    def last(s): return val(Select(s.v.A, s.v.count - 1))
def folds(L):
    """accumulators: value of the fold over the operands seen so far"""
    fs = []; g = L.run.ghost.get('args')
    ds = [L.cur[k] for k in sorted(L.plan, key=str) if k in L.cur and L.cur[k].sort() == D and k in L.pre0]
    if g is not None:
        arr, n = g; u = lg.ddiv(sump(arr, n), lg.i2d(n))
        for x in ds:
            for c in counters(L):
                fs += [x == f(arr, c) for f in (maxp, minp, sump, prodp)] + [x == sqp(arr, u, c)]
    g2 = L.run.ghost.get('xy')
    if g2 is not None:
        a, b = g2; n, k = absd(trunc(a)), absd(trunc(b)); tx = trunc(a)
        for x in ds:
            for y in ds:
                if x is y: continue
                fs += [prodi(x, y) == prodi(tx, ONE), dgcd(x, y) == dgcd(n, k), And(Not(eq(x, ZERO)), dgcd(x, y) == dgcd(n, k))]
                fs += [bini(n, kk, x, y) == bini(n, kk, ONE, ONE) for kk in (k, lg.dsub(n, k))]
    return fs
noargs = Function('noargs', I, DA)
def operands(S, num, p, maxn=None):
    if S.branch(num == 0): return noargs(p)      # nothing is read through p
    return S.blk(p, DOUBLE, num, ro=True)
AX = lambda: ax_eval()

@contract('variance', AF, props=['C08'], text='mean of the squared distances from the mean', axioms=AX)
def variance(S):
    p, n = S.a; S.req(n >= 1, 'there is an operand'); A = operands(S, n, p)
    if S.where == 'self': S.run.ghost['args'] = (A, n)
    S.inv(folds); yield
    S.result(lg.ddiv(sqp(A, lg.ddiv(sump(A, n), lg.i2d(n)), n), lg.i2d(n)), 'variance')
def num2(name, text, f):
    @contract(name, AF, props=['C08'], text=text, axioms=AX)
    def g(S):
        if S.where == 'self': S.run.ghost['xy'] = (S.a[0], S.a[1])
        S.inv(folds); yield
        S.result(f(S.a[0], S.a[1]), text)
num2('euclid', 'greatest common divisor of the whole parts', gcd)
num2('binomial', 'binomial coefficient', binom)
@contract('fib', AF, props=['C08'], text='Fibonacci number', axioms=ax_fib)
def fib(S):
    S.req(S.a[0] >= 0, 'index is not negative'); yield
    S.result(fibo(S.a[0]), 'Fibonacci number')
@contract('fibonacci', AF, props=['C08'], text='Fibonacci number, also for negative indices', axioms=ax_fib)
def fibonacci(S):
    yield
    S.result(fibd(S.a[0]), 'Fibonacci number')
def randval(x, y, v):
    lo, hi = trunc(x), trunc(y); d = lg.d2i(lg.dsub(hi, lo)); r = Int('r!r')
    return And(Implies(d < 1, v == F(-1)), Implies(d >= 1, Exists([r], And(0 <= r, r < d, v == lg.dadd(lg.i2d(r), lo)), patterns=[lg.i2d(r)])))
@contract('random_between', AF, props=['C08'], text='whole number from min up to max - 1', axioms=AX)
def random_between(S):
    yield
    v = S.fresh('v', D); S.assume(v == S.ret)
    S.req(randval(S.a[0], S.a[1], v), 'whole number in the range')

def arity_ok(num, ar): return TRUE if ar == DYN else num == ar
@contract('arith_op_evaluate', AF, props=['C08'], text='every built-in operator: value of its definition, errors exactly where it is undefined', axioms=AX, budget=300)
def arith_op_evaluate(S):
    op, num, p, out = S.a
    S.req(And(op > 0, lg.validop(op)), 'operator'); idv = lg.opid(op)
    S.req(And([Implies(idv == k, arity_ok(num, TABLE[k][2])) for k in range(len(TABLE)) if TABLE[k][2] != DYN] +
              [Implies(idv == k, num >= 1) for k in range(len(TABLE)) if TABLE[k][0] == 'var']), 'number of operands fits the operator')
    S.req(num < 2**44); A = Args(operands(S, num, p)); n = num
    g = S.glob('ans_vec'); v = vec(S, g, es=IntVal(8)); h = Hist(v)
    old = S.cell(out, DOUBLE)
    if S.where == 'self':
        S.run.ghost['args'] = (A.arr, n); S.run.ghost['xy'] = (A[0], A[1])
    S.inv(folds)
    yield
    w = vec(S, g, es=IntVal(8), count=v.count)
    S.req(And(w.buf == v.buf, w.bs == v.bs), 'history is unchanged')
    j = Int('j!h'); S.req(fa(j, 0, v.count, Select(w.A, j) == Select(v.A, j), [Select(w.A, j)]), 'history is unchanged')
    o = S.cell(out, DOUBLE); ks = range(len(TABLE))
    if S.where == 'self' and not S.inh:
        ks = [k for k in ks if not S.valid(idv != k)]
    for k in ks:
        name, pl, ar, fv, errs = TABLE[k]; here = idv == k; lb = '%s (%s)' % (name, {PRE: 'prefix', INF_: 'infix', POST: 'postfix', FUN: 'function'}[pl])
        es = errs(A, n, h); rc = S.const(OK)
        for cnd, e in reversed(es): rc = If(cnd, S.const(e), rc)
        S.req(Implies(here, S.ret == rc), 'error of ' + lb)
        if fv is None: continue
        eqv = randval(A[0], A[1], o) if fv == 'rand' else o == fv(A, n, h)
        S.req(Implies(And(here, rc == S.const(OK)), eqv), 'value of ' + lb)
    S.req(Implies(idv >= len(TABLE), S.ret == S.const(UNK)), 'unknown operators are reported')

# ------------------------------------------------------------ operators of rule conditions
TRU, FAL = ONE, ZERO
def truth(c): return If(c, TRU, FAL)
TYPEV = {'CONST': F(2), 'VAR': F(3), 'OP': F(4)}
PTABLE = [('type', FUN, 1, None), ('equal', FUN, 2, None),
    ('==', INF_, 2, lambda A: truth(eq(A[0], A[1]))), ('!=', INF_, 2, lambda A: truth(ne(A[0], A[1]))),
    ('CONST', FUN, 0, lambda A: TYPEV['CONST']), ('VAR', FUN, 0, lambda A: TYPEV['VAR']), ('OP', FUN, 0, lambda A: TYPEV['OP']),
    ('>', INF_, 2, lambda A: truth(gt(A[0], A[1]))), ('<', INF_, 2, lambda A: truth(lt(A[0], A[1]))),
    ('>=', INF_, 2, lambda A: truth(ge(A[0], A[1]))), ('<=', INF_, 2, lambda A: truth(le(A[0], A[1]))),
    ('||', INF_, 2, lambda A: truth(Or(ne(A[0], ZERO), ne(A[1], ZERO)))),
    ('TRUE', FUN, 0, lambda A: TRU), ('FALSE', FUN, 0, lambda A: FAL), ('!', PRE, 1, lambda A: truth(eq(A[0], ZERO))), ('count', FUN, DYN, None)]
@contract('prop_op_evaluate', PF, props=['C08', 'C09'], text='comparison and logical operators of rule conditions; arithmetic operators as in arith_op_evaluate', budget=200)
def prop_op_evaluate(S):
    op, num, p, out = S.a; N = len(TABLE)
    S.req(And(op > 0, lg.validop(op)), 'operator'); idv = lg.opid(op)
    S.req(And([Implies(idv == k, arity_ok(num, TABLE[k][2])) for k in range(N) if TABLE[k][2] != DYN] + [Implies(idv == k, num >= 1) for k in range(N) if TABLE[k][0] == 'var'] +
              [Implies(idv == N + k, num == PTABLE[k][2]) for k in range(len(PTABLE)) if PTABLE[k][2] != DYN]), 'number of operands fits the operator')
    S.req(num < 2**44); A = Args(operands(S, num, p))
    g = S.glob('ans_vec'); v = vec(S, g, es=IntVal(8)); S.cell(out, DOUBLE); yield
    w = vec(S, g, es=IntVal(8), count=v.count)
    S.req(And(w.buf == v.buf, w.bs == v.bs), 'history is unchanged')
    j = Int('j!h'); S.req(fa(j, 0, v.count, Select(w.A, j) == Select(v.A, j), [Select(w.A, j)]), 'history is unchanged')
    o = S.cell(out, DOUBLE); h = Hist(v)
    pure = [k for k in range(N) if TABLE[k][3] is not None and TABLE[k][3] != 'rand']
    for k, (name, pl, ar, fv) in enumerate(PTABLE):
        if fv is None: continue
        S.req(Implies(idv == N + k, And(S.ret == 0, o == fv(A))), 'value of ' + name)
    if S.where == 'self' and not S.inh: pure = [k for k in pure if not S.valid(idv != k)]
    for k in pure:
        rc = S.const(OK)
        for cnd, e in reversed(TABLE[k][4](A, num, h)): rc = If(cnd, S.const(e), rc)
        S.req(Implies(idv == k, And(S.ret == rc, Implies(rc == S.const(OK), o == TABLE[k][3](A, num, h)))), 'arithmetic operator ' + TABLE[k][0])
def kids_ro(S, num, p, need):
    """operand array of a readable operator node"""
    S.req(num == need, 'number of operands fits the operator')
    base = lin_norm(p - S.run.node_off('OperatorNode', 'children'))
    if S.inh:
        q = S.fresh('node', I); S.a[1] = lin_norm(q + S.run.node_off('OperatorNode', 'children')); base = q
    T = S.rotree(base); S.req(And(wf(T), kind(T) == OP(), nk(T) == num), 'node is complete')
    return T
@contract('equal_eval', PF, props=['C08', 'C09'], text='true exactly for equal operands')
def equal_eval(S):
    T = kids_ro(S, S.a[0], S.a[1], 2); yield
    S.result(truth(teq(kid(T, IntVal(0)), kid(T, IntVal(1)))), 'equality of the operands')
@contract('type_eval', PF, props=['C08', 'C09'], text='kind of the operand')
def type_eval(S):
    T = kids_ro(S, S.a[0], S.a[1], 1); yield
    k0 = kind(kid(T, IntVal(0)))
    S.result(If(k0 == CO(), TYPEV['CONST'], If(k0 == OP(), TYPEV['OP'], TYPEV['VAR'])), 'kind of the operand')
