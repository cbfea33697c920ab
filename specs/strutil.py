"""string_util.c: functions on texts in memory."""
from .strings import *
i = Int('i!u'); j = Int('j!u')
ESC, ESCE, NL = 27, 109, 10

def text_buf(S, p):
    """writable text: its characters and a terminator in its own memory"""
    if S.inh: sv = S.fresh('text', Str); A = S.blk(p, CHAR, lin_norm(slen(sv) + 1)); S.assume(fa(i, 0, slen(sv) + 1, Select(A, i) == sch(sv, i), [Select(A, i)])); S.run.ghost[('soa', A.get_id(), IntVal(0).get_id())] = (A, sv); return sv, A
    raise Unsupported('text_buf')

@contract('strip', UF, props=['C18'], text='the text without leading and trailing blanks, in place')
def strip(S):
    p = S.a[0]; sv, A = text_buf(S, p); L = slen(sv)
    def inv(L_):
        fs = []
        arrs = [L_.cur[b] for b in sorted(L_.plan, key=str) if b[0] == 'blk' and b in L_.cur]
        vs = [L_.cur[q] for q in L_.vars]
        others = [L_.pre0[q] for q in sorted(L_.pre0, key=str) if q not in L_.plan and L_.pre0[q] is not None and L_.pre0[q].sort() == I]
        for x in vs:
            fs += [Or(x >= y, y >= p + L) for y in others]
            fs += [And(p <= x, x <= p + L), x < p + L, fa(i, 0, x - p, sch(sv, i) == 32, [sch(sv, i)])]
            for B in arrs or [A]:
                fs += [fa(i, 0, x - p + 1, Select(B, i) == sch(sv, i), [Select(B, i)]),
                       fa(i, x - p + 1, L, And(Select(B, i) == 0, sch(sv, i) == 32), [Select(B, i)]),
                       fa(i, x - p + 1, L, sch(sv, i) == 32, [sch(sv, i)]), Select(B, L) == 0]
        return fs
    S.inv(inv)
    yield
    r = S.ret; b = lin_norm(r - p)
    S.req(And(p <= r, r <= p + L), 'result points into the text')
    S.req(fa(i, 0, b, sch(sv, i) == 32, [sch(sv, i)]), 'only blanks are skipped')
    S.req(sch(sv, b) != 32, 'no leading blank')
    B = S.blk(p, CHAR, lin_norm(L + 1))
    S.req(ForAll([i], Implies(And(b <= i, i <= L), Or(And(Select(B, i) == sch(sv, i)), And(Select(B, i) == 0, sch(sv, i) == 32))), patterns=[Select(B, i)]), 'characters are kept or blanks become the end')
    S.req(ForAll([i, j], Implies(And(b <= i, i < j, j < L, Select(B, i) == 0), Select(B, j) == 0), patterns=[z3.MultiPattern(Select(B, i), Select(B, j))]), 'nothing follows the end')
    S.req(ForAll([i], Implies(And(b <= i, i < L, Select(B, i) == 32), Not(Select(B, i + 1) == 0)), patterns=[Select(B, i)]), 'no trailing blank')
    S.req(Select(B, L) == 0, 'terminated')

# ---- escape sequences and lines
scan = Function('scan', Str, I, I, I)        # first position from the second on with the given character or the end
def ax_scan():
    v = scan(x_, k_, j_)
    return [ForAll([x_, k_, j_], Implies(And(0 <= k_, k_ <= slen(x_)), And(k_ <= v, v <= slen(x_), Or(v == slen(x_), sch(x_, v) == j_))), patterns=[v]),
            ForAll([x_, k_, j_, i], Implies(And(0 <= k_, k_ <= i, i < v), And(sch(x_, i) != j_)), patterns=[z3.MultiPattern(v, sch(x_, i))])]
ansi = Function('ansi', Str, I, I)           # first position from here on that does not start an escape sequence
ansin = Function('ansin', Str, I, I)
def ax_ansi():
    e = scan(x_, k_, ESCE)
    return ax_scan() + [
        ForAll([x_, k_], ansi(x_, k_) == If(sch(x_, k_) == ESC, ansin(x_, k_), k_), patterns=[ansi(x_, k_)]),
        ForAll([x_, k_], ansin(x_, k_) == If(sch(x_, e) == 0, e, ansi(x_, e + 1)), patterns=[z3.MultiPattern(ansin(x_, k_), e)])]
def locals_of(L):
    return [L.pre0[q] for q in sorted(L.pre0, key=str) if q not in L.plan and L.pre0[q] is not None and L.pre0[q].sort() == I]

@contract('skip_ansi', UF, props=['C16'], text='the first character that does not belong to an escape sequence', axioms=lambda: ax_ansi())
def skip_ansi(S):
    p = S.a[0]; sv = S.str(p)
    def inv(L):
        fs = []
        for x in [L.cur[q] for q in L.vars]:
            k = x - p
            fs += [And(p <= x, x <= p + slen(sv)), ansi(sv, k) == ansi(sv, 0), scan(sv, k, ESCE) == scan(sv, k, ESCE)]
            for y in [IntVal(0)] + [lin_norm(L.pre0[q] - p) for q in L.vars]:
                fs += [scan(sv, y, ESCE) == scan(sv, k, ESCE), And(y <= k, k <= scan(sv, y, ESCE)), fa(i, y, k, sch(sv, i) != ESCE, [sch(sv, i)]), ansi(sv, 0) == ansin(sv, y), And(0 <= y, y <= slen(sv))]
        return fs
    S.inv(inv)
    yield
    S.result(lin_norm(p + ansi(sv, 0)), 'end of the escape sequences')

lst = Function('linestart', Str, I, I)       # start of the k-th line, -1: no such line
lnx = Function('linenext', Str, I, I)
def ax_line():
    e = scan(x_, lst(x_, k_), NL)
    return ax_scan() + [ForAll([x_], lst(x_, 0) == 0, patterns=[lst(x_, 0)]),
        ForAll([x_, k_], Implies(k_ >= 0, And(lst(x_, k_) >= -1, lst(x_, k_) <= slen(x_), Implies(k_ == 0, lst(x_, k_) == 0))), patterns=[lst(x_, k_)]),
        ForAll([x_, k_], Implies(k_ >= 0, And(lnx(x_, k_) == lst(x_, k_ + 1), lnx(x_, k_) == If(Or(lst(x_, k_) < 0, sch(x_, e) == 0), IntVal(-1), e + 1))), patterns=[lnx(x_, k_)]),
        ForAll([x_, k_, j_], Implies(And(lst(x_, k_) < 0, 0 <= k_, k_ <= j_), lst(x_, j_) < 0), patterns=[z3.MultiPattern(lst(x_, k_), lst(x_, j_))])]      # (by induction on j)
@contract('get_line_of_string', UF, props=['C16'], text='start and length of the given line; 0 if there is no such line', axioms=lambda: ax_line())
def get_line_of_string(S):
    p, n, o = S.a[0], S.a[1], S.a[2]
    null = S.branch(p == 0)
    old = S.cell(o, PTR(CHAR))
    if null:
        yield
        S.result(IntVal(0), 'nothing'); S.cell(o, PTR(CHAR), val=IntVal(0)); return
    sv = S.str(p)
    b = lst(sv, n); e = scan(sv, b, NL)
    def inv(L):
        fs = []
        for x in [L.cur[q] for q in L.vars]:
            k = x - p
            fs += [And(p <= x, x <= p + slen(sv))]
            for y in [L.cur[q] for q in L.vars] + [n]:
                if y is x: continue
                m = n - y
                fs += [And(lst(sv, m) <= k, k <= scan(sv, lst(sv, m), NL), lst(sv, m) >= 0, m >= 0), lnx(sv, m) == lst(sv, m + 1), y > 0]
            z = x
            fs += [And(0 <= z, b + z <= e), fa(i, 0, z, And(sch(sv, b + i) != NL, sch(sv, b + i) != 0), [sch(sv, b + i)])]
        return fs
    S.inv(inv)
    yield
    has_ = S.branch(b >= 0)
    S.result(lin_norm(e - b) if has_ else IntVal(0), 'length of the line')
    S.cell(o, PTR(CHAR), val=lin_norm(p + b) if has_ else old)

AS = z3.ArraySort(I, Str); D_ = Const('D!u', AS)
psn = Function('piecestart', Str, AS, I, I)      # start of the k-th piece
pnx = Function('piecenext', Str, AS, I, I)
nsp = Function('pieces', Str, AS, I, I)          # number of delimiters found one after the other
def pfind(v, D, k): return sfind(sdrop(v, psn(v, D, k)), Select(D, k))
def pend(v, D, k): return psn(v, D, k) + pfind(v, D, k)
def ax_split():
    n = nsp(x_, D_, j_)
    return ax_sarr() + ax_str() + [
        ForAll([x_, D_], psn(x_, D_, 0) == 0, patterns=[psn(x_, D_, 0)]),
        ForAll([x_, D_, k_], Implies(k_ >= 0, And(pnx(x_, D_, k_) == psn(x_, D_, k_ + 1), pnx(x_, D_, k_) == pend(x_, D_, k_) + slen(Select(D_, k_)))), patterns=[pnx(x_, D_, k_)]),
        ForAll([x_, D_, j_], Implies(j_ >= 0, And(0 <= n, n <= j_, Or(n == j_, pfind(x_, D_, n) < 0))), patterns=[n]),
        ForAll([x_, D_, j_, k_], Implies(And(0 <= k_, k_ < n), pfind(x_, D_, k_) >= 0), patterns=[z3.MultiPattern(n, psn(x_, D_, k_))]),
        ForAll([x_, y_], And(sfind(x_, y_) >= -1, sfind(x_, y_) + slen(y_) <= slen(x_)), patterns=[sfind(x_, y_)])]
@contract('str_split', UF, props=['C18'], text='splits the text at the first occurrences of the delimiters, one after the other, as far as they are found', axioms=lambda: ax_split())
def str_split(S):
    p, out, n = S.a; va = S.va(); v, A = text_buf(S, p)
    S.req(n < 2**30)
    if S.inh:
        s = S.run.fresh('s', lg.Snap); D = S.run.fresh('D', AS)
        S.assume(fa(i, 0, n, And(lg.cstr(s, Select(va, i)), lg.strat(s, Select(va, i)) == Select(D, i), slen(Select(D, i)) > 0), [Select(va, i)])); S.run.add(SnapC(s))
    S.blk(out, PTR(CHAR), lin_norm(n + 1))
    def parts(B, O, k, hi):
        """first k pieces"""
        return [fa(i, 0, k, Select(O, i) == p + psn(v, D, i), [Select(O, i)]),
                fa(i, 0, k, And(0 <= psn(v, D, i), psn(v, D, i) <= pend(v, D, i), pend(v, D, i) < psn(v, D, k), pfind(v, D, i) >= 0), [psn(v, D, i)]),
                fa(i, 0, k, Select(B, pend(v, D, i)) == 0, [psn(v, D, i)]), inner(B, k)]
    def inner(B, k): return ForAll([i, j], Implies(And(0 <= i, i < k, psn(v, D, i) <= j, j < pend(v, D, i)), Select(B, j) == sch(v, j)), patterns=[z3.MultiPattern(psn(v, D, i), Select(B, j))])
    def inv(L):
        fs = []; bs = [(b, L.cur[b]) for b in sorted(L.plan, key=str) if b[0] == 'blk' and b in L.cur]
        vs = [L.cur[q] for q in L.vars]
        for x in vs:
            fs += [And(p <= x, x <= p + slen(v)), x <= n]
            for y in vs:
                if x is y: continue
                fs += [x == p + psn(v, D, y), pnx(v, D, y) == psn(v, D, y + 1)]
        for b, B in bs:
            fs.append(Select(B, slen(v)) == 0)
            for x in vs: fs += [fa(i, x - p, slen(v) + 1, Select(B, i) == sch(v, i), [Select(B, i)])]
            for b2, O in bs:
                if b is b2: continue
                for x in vs: fs += parts(B, O, x, None)
        return fs
    S.inv(inv)
    yield
    m = nsp(v, D, n)
    S.result(lin_norm(m + 1), 'number of pieces')
    O = S.blk(out, PTR(CHAR), lin_norm(n + 1)); B = S.blk(p, CHAR, lin_norm(slen(v) + 1))
    S.req(fa(i, 0, m + 1, Select(O, i) == p + psn(v, D, i), [Select(O, i)]), 'pieces start where the delimiters end')
    S.req(fa(i, 0, m, Select(B, pend(v, D, i)) == 0, [psn(v, D, i)]), 'pieces end where the delimiters start')
    S.req(inner(B, m), 'characters of the pieces are kept')
    S.req(fa(j, psn(v, D, m), slen(v) + 1, Select(B, j) == sch(v, j), [Select(B, j)]), 'characters of the last piece are kept')
