from .strings import *
from .trie import trie, ax_trie
from .vector import same_prefix
FILE = 'src/engine/parsing/tokenizer.c'
unptr = Function('unp:ptr', Blob, I)
AS, AI, AB = z3.ArraySort(I, Str), z3.ArraySort(I, I), z3.ArraySort(I, Blob)
k, i, p = Ints('k!t i!t p!t')

# ---- the token at a position: definition
DIG, LET, OTH = 0, 1, 2
def cls(c): return If(isdig(c), IntVal(DIG), If(islet(c), IntVal(LET), IntVal(OTH)))
rend = Function('runend', Str, I, I)          # end of the maximal run of characters of one class
tp = Function('tokpos', Str, TrieM, z3.BoolSort(), I, I)       # start of the k-th token
tpn = Function('tokend', Str, TrieM, z3.BoolSort(), I, I)      # its end
def kwlen(s, M, u, q): return If(And(u, cls(sch(s, q)) != LET), lpf(M, sdrop(s, q)), IntVal(0))
def tend(s, M, u, q):
    """longest registered name (outside runs of letters), else maximal run of letters / of digits and dots, else one character"""
    return If(kwlen(s, M, u, q) > 0, q + kwlen(s, M, u, q), If(cls(sch(s, q)) == OTH, q + 1, rend(s, q)))
def ax_tok():
    s, M, u = Const('s!t', Str), Const('M!t', TrieM), z3.Bool('u!t')
    e = rend(s, p)
    return ax_str() + ax_lpf() + [
        ForAll([s, p], Implies(And(0 <= p, p < slen(s)), And(p < e, e <= slen(s), Or(e == slen(s), cls(sch(s, e)) != cls(sch(s, p))))), patterns=[e]),
        ForAll([s, p, i], Implies(And(0 <= p, p <= i, i < e), cls(sch(s, i)) == cls(sch(s, p))), patterns=[MultiPattern(e, sch(s, i))]),
        ForAll([s, M, u], tp(s, M, u, 0) == 0, patterns=[tp(s, M, u, 0)]),
        ForAll([s, M, u, k], Implies(k >= 0, And(tpn(s, M, u, k) == tp(s, M, u, k + 1), tpn(s, M, u, k) == tend(s, M, u, tp(s, M, u, k)))), patterns=[tpn(s, M, u, k)])]
def owned(A, n, R, lo=0):
    """the strings of R are exactly those stored in A[lo..n), each once"""
    q = unptr(Select(A, k)); pos = lambda x: Select(R.tree['pos'], x)
    return [fa(k, lo, n, And(Select(R.N, q), pos(q) == k), [Select(A, k)]),
            ForAll([p], Implies(Select(R.N, p), And(lo <= pos(p), pos(p) < n, unptr(Select(A, pos(p))) == p)), patterns=[Select(R.N, p)])]
def unchanged(R2, R, x=None):
    """same elements, except x"""
    same = And([Select(R2.N, p) == Select(R.N, p)] + [Select(R2.tree[f], p) == Select(R.tree[f], p) for f in R.tree])
    return ForAll([p], same if x is None else Implies(p != x, same), patterns=[Select(R2.N, p)] + [Select(R2.tree[f], p) for f in R.tree])

@contract('push_token', FILE, props=['C01'], text='appends an own copy of the first length characters; nothing when length is 0', axioms=lambda: ax_tok())
def push_token(S):
    s = S.str(S.a[0]); n = S.a[1]
    S.req(n <= slen(s), 'length within the text')
    v = vec(S, S.a[2], es=IntVal(8)); R = S.reg('strs', S.a[2])
    S.req(v.count < ASZ)
    def copied(L):
        return [fa(k, 0, c, Select(L.cur[b], k) == sch(s, k), [Select(L.cur[b], k)]) for b in sorted(L.plan, key=str) if b[0] == 'blk' and b in L.cur and L.cur[b].sort() == AI for c in counters(L)]
    S.inv(copied)
    yield
    if S.branch(n == 0):
        w = vec(S, S.a[2], es=IntVal(8), count=v.count); same_prefix(S, w, v, v.count)
        S.req(w.buf == v.buf); R2 = S.reg('strs', S.a[2])
        S.req(unchanged(R2, R), 'strings are unchanged')
        return
    w = vec(S, S.a[2], es=IntVal(8), count=lin_norm(v.count + 1)); same_prefix(S, w, v, v.count)
    S.req(w.buf != 0, 'buffer is allocated')
    t = unptr(Select(w.A, v.count)); tv = S.fresh('tok', I); S.assume(tv == t)
    put = []
    if not S.inh:
        put = [(c.base, v.count) for c in S.run.heap.values() if isinstance(c, Tok) and S.valid(c.base == t)]
    R2 = S.reg('strs', S.a[2], put=put)
    S.req(And(Not(Select(R.N, tv)), Select(R2.N, tv), Select(R2.tree['pos'], tv) == v.count), 'the new element is a new own string')
    S.streq(Select(R2.tree['sv'], tv), spre(s, n), 'the token is a copy of the characters')
    S.req(unchanged(R2, R, tv), 'other strings are unchanged')

def keywords_of(S, kp):
    """kp is the trie of keywords of a context that is seen as a table"""
    run = S.run; kp = lin_norm(kp); off = run.node_off('ParsingContext', 'keywords_trie')
    for c in run.heap.values():
        if isinstance(c, PredC) and c.name == 'context' and run.valid(kp == c.base + off): return True
    return False
@contract('tokenize', FILE, props=['C01'], text='the tokens are exactly the pieces of the text given by the longest-match rule, in order, as own copies', axioms=lambda: ax_tok(), budget=300)
def tokenize(S):
    s = S.str(S.a[0]); kp = S.a[1]
    u = kp != 0; u = BoolVal(S.branch(u))
    M = Const('noM', TrieM)
    ctxk = S.where != 'self' and S.run.e.c.file != FILE and keywords_of(S, kp)
    if ctxk: M = S.fresh('K', TrieM); S.run.e.notes.add('the keywords of a context do not start with a digit or dot (ctx_add_op keeps it)')
    elif z3.is_true(u):
        M = trie(S, kp, ro=True).M
        q = Const('q!n', Str)
        S.req(ForAll([q], Implies(has(M, q), And(slen(q) > 0, Not(isdig(sch(q, 0))))), patterns=[has(M, q)]), 'names do not start with a digit or dot')
    if S.where == 'self': S.newreg('strs', IntVal(1))
    def piece(A, R, kk):
        """token kk is the piece of the text from its start to its end"""
        b, e = tp(s, M, u, kk), tpn(s, M, u, kk); t = unptr(Select(A, kk))
        return Select(R.tree['sv'], t) == spre(sdrop(s, b), e - b)
    def room(n): return [fa(k, 0, n, tp(s, M, u, k) >= 0, [tp(s, M, u, k)]), fa(k, 0, n, tp(s, M, u, k) < tpn(s, M, u, k), [tpn(s, M, u, k)]), fa(k, 0, n, tpn(s, M, u, k) <= slen(s), [tpn(s, M, u, k)])]
    def inv_(L):
        fs = []; run = L.run
        for cid in sorted(L.pre.heap):
            vo = run.heap.get(cid)
            if not (isinstance(vo, Obj) and vo.T == ('rec', 'Vector') and vo.origin == 'local'): continue
            n, buf = vo.val['elem_count'], vo.val['buffer']; A = None
            for c in run.heap.values():
                if isinstance(c, Blk) and c.base.eq(lin_norm(buf)): A = c
            Rs = [c for c in run.heap.values() if isinstance(c, RegC) and c.kind == 'strs']
            fs += [And(n >= 0, n <= vo.val['buffer_size'], vo.val['buffer_size'] < 2**60), buf != 0, vo.val['elem_size'] == 8, A.n == vo.val['buffer_size'] if A is not None else BoolVal(True)]
            if A is None or not Rs or A.T[0] != 'blob':
                fs += [BoolVal(True)] * 6
            else:
                fs += owned(A.tree, n, Rs[0]) + room(n) + [fa(k, 0, n, piece(A.tree, Rs[0], k), [Select(A.tree, k)])]
            cs = [L.cur[q] for q in L.keys if q[0] == 'env']
            fs += [n >= 0] + [tpn(s, M, u, n + j) == tp(s, M, u, n + j + 1) for j in (0, 1)]      # (mentions the terms)
            for x in cs:
                fs += [x == tp(s, M, u, n), n <= x, x <= slen(s)]
                for y in cs:      # x: start of the current token, y: position, z: state
                    if y is x: continue
                    fs.append(y <= slen(s))
                    for z in cs:
                        if z is x or z is y: continue
                        st = [S.const(c) for c in ('TOKSTATE_NEW', 'TOKSTATE_LETTER', 'TOKSTATE_DIGIT', 'TOKSTATE_OTHER')]
                        run_of = lambda c: And(x < y, y <= rend(s, x), cls(sch(s, x)) == c, kwlen(s, M, u, x) == 0)
                        fs += [And(x <= y, Or([z == c for c in st])), Implies(z == st[0], x == y), Implies(z == st[1], run_of(LET)), Implies(z == st[2], run_of(DIG)), Implies(z == st[3], And(y == x + 1, cls(sch(s, x)) == OTH, kwlen(s, M, u, x) == 0))]
        return fs
    S.inv(inv_)
    yield
    r = S.ret
    if S.inh: r['elem_size'] = IntVal(8)
    n, buf, bs = r['elem_count'], r['buffer'], r['buffer_size']
    S.req(And(r['elem_size'] == 8, n >= 0, n <= bs, bs < 2**60, buf != 0), 'vector of strings')
    A = S.blk(buf, ('blob', IntVal(8)), bs); S.tok(buf, 8 * bs)
    R = S.reg('strs', buf)
    for f in owned(A, n, R): S.req(f, 'every token is an own string')
    for f in room(n): S.req(f, 'no piece is empty')
    S.req(n <= slen(s), 'no more tokens than characters')
    S.req(fa(k, 0, n, piece(A, R, k), [Select(A, k)]), 'every token is the piece the longest-match rule gives at its position')
    S.req(And(tp(s, M, u, 0) == 0, tp(s, M, u, n) == slen(s)), 'the pieces cover the text from start to end')

@contract('free_tokens', FILE, props=['C01'], text='releases every token and the vector', axioms=lambda: ax_tok())
def free_tokens(S):
    if S.branch(S.a[0] == 0): yield; return
    v = vec(S, S.a[0], es=IntVal(8)); R = S.reg('strs', S.a[0])
    for f in owned(v.A, v.count, R): S.req(f, 'every stored token is an own string')
    def left(L):
        Rs = [c for c in L.run.heap.values() if isinstance(c, RegC)]
        return [f for x in counters(L) for f in (owned(v.A, v.count, Rs[0], x) if Rs else [BoolVal(True)] * 2)]
    S.inv(left)
    yield
    S.obj(S.a[0], 'Vector')
