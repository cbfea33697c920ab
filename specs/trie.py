"""trie.c: the invariant is stated over ghost maps (node of a string, string of a node); the contents follow from them."""
from .strings import *
from .strings import slen, sch, sdrop, spre, snoc, semp, has, lpf, TrieM
FILE = 'src/util/trie.c'
AI, AX, AN, AAI = z3.ArraySort(I, I), z3.ArraySort(I, Blob), z3.ArraySort(I, z3.BoolSort()), z3.ArraySort(I, z3.ArraySort(I, I))
AT, AK = z3.ArraySort(Str, I), z3.ArraySort(I, Str)
init, last = Function('init', Str, Str), Function('lastc', Str, I)
cnt = Function('nonnull', AI, I)          # number of successors stored in a node
mk = Function('trieval', AT, AI, TrieM)
card = Function('card', TrieM, I)
madd, mdel = Function('madd', TrieM, Str, TrieM), Function('mdel', TrieM, Str, TrieM)
memp = Const('memp', TrieM)
pad = Function('payload', TrieM, Str, I)
c_, p_, v_ = Ints('c! p! v!')
q_, s_ = Const('q!', Str), Const('s!', Str)
at_, t_, a_ = Const('at!', AT), Const('te!', AI), Const('a!', AI)
NS = 92; LO = 33
def legal(c): return And(c >= LO, c < LO + NS)

def ax_snoc():
    return [
        ForAll([s_, c_], And(init(snoc(s_, c_)) == s_, last(snoc(s_, c_)) == c_, slen(snoc(s_, c_)) == slen(s_) + 1, snoc(s_, c_) != semp), patterns=[snoc(s_, c_)]),
        ForAll([s_, k_], Implies(And(0 <= k_, k_ < slen(s_)), spre(s_, k_ + 1) == snoc(spre(s_, k_), sch(s_, k_))), patterns=[snoc(spre(s_, k_), sch(s_, k_))]),
        ForAll([s_, k_], Implies(And(0 < k_, k_ <= slen(s_)), And(init(spre(s_, k_)) == spre(s_, k_ - 1), last(spre(s_, k_)) == sch(s_, k_ - 1))), patterns=[init(spre(s_, k_))]),
    ]
def ax_cnt():
    return [
        ForAll([a_], And(0 <= cnt(a_), cnt(a_) <= NS), patterns=[cnt(a_)]),
        ForAll([a_, c_, v_], Implies(And(0 <= c_, c_ < NS), cnt(Store(a_, c_, v_)) == cnt(a_) + If(v_ != 0, 1, 0) - If(Select(a_, c_) != 0, 1, 0)), patterns=[cnt(Store(a_, c_, v_))]),
        ForAll([a_, c_], Implies(And(cnt(a_) == 0, 0 <= c_, c_ < NS), Select(a_, c_) == 0), patterns=[MultiPattern(cnt(a_), Select(a_, c_))]),
        cnt(K(I, IntVal(0))) == 0,
    ]
def ax_map():
    """maps are determined by what they contain"""
    n = lambda b: If(b, IntVal(1), IntVal(0))
    return [
        ForAll([at_, t_, s_], has(mk(at_, t_), s_) == And(Select(at_, s_) != 0, Select(t_, Select(at_, s_)) != 0), patterns=[has(mk(at_, t_), s_)]),
        ForAll([m_, s_, q_], has(madd(m_, s_), q_) == Or(has(m_, q_), q_ == s_), patterns=[has(madd(m_, s_), q_)]),
        ForAll([m_, s_, q_], has(mdel(m_, s_), q_) == And(has(m_, q_), q_ != s_), patterns=[has(mdel(m_, s_), q_)]),
        ForAll([q_], Not(has(memp, q_)), patterns=[has(memp, q_)]),
        ForAll([m_], And(0 <= card(m_), card(m_) < lg.PTRMAX), patterns=[card(m_)]),
        ForAll([m_, s_], card(madd(m_, s_)) == card(m_) + n(Not(has(m_, s_))), patterns=[card(madd(m_, s_))]),
        ForAll([m_, s_], card(mdel(m_, s_)) == card(m_) - n(has(m_, s_)), patterns=[card(mdel(m_, s_))]),
        ForAll([m_, s_], Implies(has(m_, s_), card(m_) > 0), patterns=[MultiPattern(card(m_), has(m_, s_))]),
        card(memp) == 0,
    ]
def ax_trie(): return ax_str() + ax_lpf() + ax_snoc() + ax_cnt() + ax_map()

# ---- ghost maps follow the code: a new node belongs to the string of its parent and its index
GA, GK = ('gv', 'at'), ('gv', 'key')
def fields(c):
    t = c.tree; nx = t['next']
    return t['is_terminal'], t['num_successors'], nx.tree if isinstance(nx, AV) else nx, t['$x']
def track(run):
    regs = [(i, c) for i, c in run.heap.items() if isinstance(c, RegC) and c.T == ('rec', 'TrieNode')]
    if not regs or GA not in run.ghost: return
    cid, c = regs[0]; nx = fields(c)[2]
    for i, o in list(run.heap.items()):
        if isinstance(o, Raw) and lin_norm(o.size - c.es).eq(IntVal(HS)): run.type_raw(i, o, ({}, 0), c.T)
    for o in list(run.heap.values()):
        if not (isinstance(o, Obj) and o.T == c.T and o.origin == 'heap' and run.find_tok(o.base) is not None): continue
        q = lin_norm(o.base)
        a = nx; par = None
        while z3.is_app_of(a, z3.Z3_OP_STORE) and par is None:
            b = a.arg(2)
            while z3.is_app_of(b, z3.Z3_OP_STORE):
                if b.arg(2).eq(q): par = (a.arg(1), b.arg(1)); break
                b = b.arg(0)
            a = a.arg(0)
        at, key = run.ghost[GA], run.ghost[GK]
        if par is not None: s = snoc(Select(key, par[0]), lin_norm(par[1] + LO))
        else: s = semp
        run.ghost[GA] = Store(at, s, q); run.ghost[GK] = Store(key, q, s)
        run.ghost[('put', q.get_id())] = q
        run.reg_put(cid, q)

def inv(R, root, at, key, hint=False, but=()):
    """clauses of the representation invariant"""
    T, NSU, NX, X = fields(R); s = s_
    step = Select(at, spre(s, k_ + 1)) == Select(at, snoc(spre(s, k_), sch(s, k_)))
    useful = Or([p_ == root, Select(T, p_) != 0, Select(NSU, p_) > 0] + [p_ == x for x in but])
    return [
        ('the root stands for the empty string', And(Select(at, semp) == root, Select(R.N, root), Select(key, root) == semp, root != 0)),
        ('every node stands for its string', ForAll([p_], Implies(Select(R.N, p_), Select(at, Select(key, p_)) == p_), patterns=[Select(R.N, p_)])),
        ('the node of a string exists', ForAll([s], Implies(Select(at, s) != 0, Select(R.N, Select(at, s))), patterns=[Select(at, s)])),
        ('the node of a string has that string', ForAll([s], Implies(Select(at, s) != 0, Select(key, Select(at, s)) == s), patterns=[Select(at, s)])),
        ('successors are the nodes of the longer strings', ForAll([p_, c_], Implies(And(Select(R.N, p_), 0 <= c_, c_ < NS), Select(Select(NX, p_), c_) == Select(at, snoc(Select(key, p_), c_ + LO))), patterns=[Select(Select(NX, p_), c_)])),
        ('longer strings are successors', ForAll([p_, c_], Implies(And(Select(R.N, p_), legal(c_)), Select(Select(NX, p_), c_ - LO) == Select(at, snoc(Select(key, p_), c_))), patterns=[Select(at, snoc(Select(key, p_), c_))])),
        ('only strings of legal characters, with their prefixes', ForAll([s, c_], Implies(Select(at, snoc(s, c_)) != 0, And(legal(c_), Select(at, s) != 0)), patterns=[Select(at, snoc(s, c_))])),
        ('prefixes have nodes', ForAll([s, v_, k_], Implies(And([0 <= k_, k_ < v_, v_ <= slen(s), Select(at, spre(s, v_)) != 0] + ([step] if hint else [])), Select(at, spre(s, k_)) != 0), patterns=[MultiPattern(Select(at, spre(s, v_)), Select(at, spre(s, k_)))])),
        ('successor counts are exact', ForAll([p_], Implies(Select(R.N, p_), Select(NSU, p_) == cnt(Select(NX, p_))), patterns=[Select(NSU, p_)])),
        ('every node but the root is needed', ForAll([p_], Implies(Select(R.N, p_), useful), patterns=[Select(R.N, p_)])),
    ]
class TV: pass
def ext(S, a, b, label):
    """equal contents"""
    if S.inh: S.assume(a == b); return
    if a.eq(b): return S.run.prove(BoolVal(True), S.label(label))
    S.run.prove(ForAll([q_], has(a, q_) == has(b, q_), patterns=[has(a, q_)]), S.label(label)); S.assume(a == b)
def trie_at(S, root, es, but=(), ro=False, fix=None):
    """nodes of the trie with this root"""
    run = S.run; v = TV(); v.root = root
    if S.inh:
        R = S.reg('trie', root, T='TrieNode', es=es, ro=ro)
        run.ghost[GA] = v.at = run.fresh('at', AT); run.ghost[GK] = v.key = run.fresh('key', AK)
    else:
        track(run)
        R = S.reg('trie', root, T='TrieNode', es=es, ro=ro)
        v.at, v.key = run.ghost[GA], run.ghost[GK]
        for f, x in list(R.tree.items()):       # (conditional terms may not occur in patterns)
            y = x.tree if isinstance(x, AV) else x
            if ' (if ' in y.sexpr() or '(ite ' in y.sexpr():
                z = run.fresh('F', y.sort()); run.assume(z == y); R = R.copy(); R.tree = dict(R.tree); R.tree[f] = AV(x.T, x.n, z) if isinstance(x, AV) else z
    v.R = R; v.T, v.S, v.NX, v.X = fields(R)
    if fix: fix(v)
    for lab, f in inv(v.R, root, v.at, v.key, not S.inh, but): S.req(f, lab)
    v.M = mk(v.at, v.T)
    return v
PTRV = ('ptr', ('void',))
def trie(S, p, ro=False, M=None, label=None, cells=None):
    o = S.obj(p, 'Trie', ro=ro)
    if S.run.e.c.file != FILE: return trie_out(S, p, o, ro, M, label, cells)
    v = trie_at(S, o['first_node'], o['elem_size'], ro=ro); v.o = o
    if M is not None: ext(S, v.M, M, label)
    S.req(And(o['elem_size'] >= 0, o['elem_size'] < 2**32), 'element size is sensible')
    S.req(o['count'] == card(v.M), 'count is exact')
    return v
HS = 744
def TC(name, **kw):
    kw.setdefault('norm_hooks', []).append(track)
    return contract(name, FILE, props=['C13'], axioms=lambda: ax_trie(), inline=['malloc_trienode', 'is_legal_char', 'char_to_index'], **kw)

def along(v_of):
    """a node pointer is the node of the prefix read so far"""
    def f(L):
        regs = [c for c in L.run.heap.values() if isinstance(c, RegC) and c.T == ('rec', 'TrieNode')]
        if not regs: return []
        fs = []; run = L.run; R = regs[0]; at = run.ghost[GA]; v = v_of; s = v.s
        cs = [L.cur[q] for q in L.vars]
        for x in cs:
            for y in cs:
                if x is y: continue
                fs.append(Implies(And(0 <= y, y < slen(s)), Select(at, spre(s, y + 1)) == Select(at, snoc(spre(s, y), sch(s, y)))))     # (mentions the next node)
                fs.append(And(0 <= y, y <= slen(s), x == Select(at, spre(s, y)), x != 0, Select(R.N, x)))
        return fs + (v.more(L, R, cs) if hasattr(v, 'more') else [])
    return f

@TC('trie_longest_prefix', text='length of the longest contained prefix, and its payload')
def trie_longest_prefix(S):
    v = trie(S, S.a[0], ro=True); s = v.s = S.str(S.a[1])
    out = S.branch(S.a[2] != 0)
    if out: S.out(S.a[2], ('ptr', ('void',)))
    def more(L, R, cs):
        fs = []
        for x in cs:
            for y in cs:
                if x is y: continue
                fs += [x <= y, ForAll([k_], Implies(And(x < k_, k_ <= y), Not(has(v.M, spre(s, k_)))), patterns=[has(v.M, spre(s, k_))]) if False else
                    ForAll([k_], Implies(And(x < k_, k_ <= y), Not(has(v.M, spre(s, k_)))), patterns=[spre(s, k_)])]
            fs += [And(x >= 0, Implies(x > 0, has(v.M, spre(s, x))))]
            for o in L.run.heap.values():
                if isinstance(o, Obj) and o.base.eq(lin_norm(S.a[2])): fs.append(o.val == Select(v.at, spre(s, x)) + HS)
        return fs
    v.more = more
    S.inv(along(v))
    yield
    if not S.inh:
        r = S.ret; rv = S.fresh('len', I); S.assume(rv == r)
        S.req(And(0 <= r, r <= slen(s), Implies(r > 0, has(v.M, spre(s, r)))), 'the prefix of the returned length is contained')
        S.req(ForAll([k_], Implies(And(r < k_, k_ <= slen(s)), Not(has(v.M, spre(s, k_)))), patterns=[spre(s, k_)]), 'no longer prefix is contained')
    S.result(lpf(v.M, s), 'length of the longest contained prefix')
    if out: S.cell(S.a[2], ('ptr', ('void',)), lin_norm(Select(v.at, spre(s, lpf(v.M, s))) + HS))

@TC('trie_contains', text='true exactly for contained strings; gives their payload')
def trie_contains(S):
    v = trie(S, S.a[0], ro=True); s = S.str(S.a[1]); S.assume(S.fresh('whole', Str) == spre(s, slen(s)))
    out = S.branch(S.a[2] != 0)
    if out: S.out(S.a[2], ('ptr', ('void',)))
    yield
    S.result(If(has(v.M, s), IntVal(1), IntVal(0)), 'true exactly for contained strings')
    if out:
        if S.inh:
            x = S.cell(S.a[2], ('ptr', ('void',))); S.assume(Implies(has(v.M, s), x == Select(v.at, s) + HS))
        else:
            x = S.cell(S.a[2], ('ptr', ('void',))); S.req(Implies(has(v.M, s), x == Select(v.at, s) + HS), 'the payload belongs to the string')

@TC('trie_count', text='number of contained strings')
def trie_count(S):
    v = trie(S, S.a[0], ro=True); yield
    S.result(card(v.M), 'number of contained strings')

@TC('trie_create', text='empty map')
def trie_create(S):
    S.req(And(S.a[0] >= 0, S.a[0] < 2**32))
    if S.where == 'self':
        S.newreg('trie', IntVal(1), T='TrieNode', es=S.a[0])
        S.run.ghost[GA] = K(Str, IntVal(0)); S.run.ghost[GK] = K(I, semp)
    yield
    r = S.ret
    if S.inh: r['elem_size'] = S.a[0]; r['count'] = IntVal(0)
    S.req(And(r['elem_size'] == S.a[0], r['count'] == 0), 'count is zero')
    if S.run.e.c.file != FILE: trie_out(S, None, r, False, memp, None, None); return
    v = trie_at(S, r['first_node'], S.a[0]); ext(S, v.M, memp, 'nothing is contained')

def trie_out(S, p, o, ro, M, label, cells):
    """outside of trie.c: contents, place of every contained string, and its payload as a memory cell of its own"""
    run = S.run; v = TV(); v.o = o; v.root = z3.simplify(o['first_node'])
    v.M, v.at = S.pred('Trie', v.root, sorts=(TrieM, AT), ro=ro)
    S.req(And(o['elem_size'] >= 0, o['elem_size'] < 2**32), 'element size is sensible')
    if M is not None: ext(S, v.M, M, label)
    S.req(o['count'] == card(v.M), 'count is exact')
    v.X = None
    r0 = lin_norm(z3.simplify(v.root))
    pend = run.ghost.get(('cells', 0), ())       # payload types of the tries passed to the current call
    if S.inh:
        AK_ = run.fresh('key', AK)
        S.assume(ForAll([q_], Implies(has(v.M, q_), And(Select(v.at, q_) > 0, Select(AK_, Select(v.at, q_)) == q_)), patterns=[has(v.M, q_)]))
        if not ro and pend:
            hit = [x for x in pend if x[0].eq(r0)] or pend
            if cells is None and len(hit) == 1: cells = hit[0][1]
            if cells is not None: run.ghost[('cells', 0)] = tuple(x for x in pend if x is not hit[0])
        if cells is not None:
            N = run.fresh('N', AN); c = RegC('cells', r0, cells, IntVal(0), N, run.fresh_val(cells, 'cell', 1), ro)
            run.reg_facts(c); run.add(c); v.X = c.tree
            S.assume(ForAll([q_], Implies(has(v.M, q_), Select(N, Select(v.at, q_) + HS)), patterns=[Select(v.at, q_)]))
    else:
        c = [i for i, c in run.heap.items() if isinstance(c, RegC) and c.kind == 'cells']
        c = [i for i in c if run.heap[i].key.eq(r0)] or [i for i in c if run.valid(run.heap[i].key == r0)]
        if c:
            c0 = run.heap[c[0]]; v.X = c0.tree
            if not ro: del run.heap[c[0]]; run.ghost[('cells', 0)] = pend + ((r0, c0.T),)
    return v
def pay(S, v, q): return Select(v.X, Select(v.at, q)) if S.run.e.c.file == FILE else Select(v.X, Select(v.at, q) + HS)
def kept(S, v, w, s=None, label='contained strings keep their payload'):
    """strings contained before (and after) are at the same place with the same payload"""
    S.req(ForAll([q_], Implies(And(has(v.M, q_), has(w.M, q_)), Select(w.at, q_) == Select(v.at, q_)), patterns=[Select(w.at, q_)]), 'contained strings keep their place')
    if v.X is not None: S.req(ForAll([q_], Implies(And(has(v.M, q_), has(w.M, q_)), pay(S, w, q_) == pay(S, v, q_)), patterns=[Select(w.at, q_)]), 'contained strings keep their payload')

@TC('trie_add_str', text='the string is contained afterwards, with a payload of its own; a present string changes nothing', budget=240)
def trie_add_str(S):
    v = trie(S, S.a[0]); s = v.s = S.str(S.a[1])
    def more(L, R, cs):
        at, key = L.run.ghost[GA], L.run.ghost[GK]; T, NSU, NX, X = fields(R); fs = []
        for x in [None] + cs: fs += [f for lab, f in inv(R, v.root, at, key, False, () if x is None else (x,))]
        fs += [ForAll([q_], Implies(Select(v.at, q_) != 0, Select(at, q_) == Select(v.at, q_)), patterns=[Select(at, q_)]),
               ForAll([q_], Implies(And(Select(at, q_) != 0, Select(v.at, q_) == 0), Select(T, Select(at, q_)) == 0), patterns=[Select(at, q_)]),
               ForAll([p_], Implies(Select(v.R.N, p_), And(Select(R.N, p_))), patterns=[Select(v.R.N, p_)]),
               ForAll([p_], Implies(Select(v.R.N, p_), Select(T, p_) == Select(v.T, p_)), patterns=[Select(T, p_)]),
               ForAll([p_], Implies(Select(v.R.N, p_), Select(X, p_) == Select(v.X, p_)), patterns=[Select(X, p_)]),
               ForAll([p_], Implies(And(Select(R.N, p_), Not(Select(v.R.N, p_))), Select(T, p_) == 0), patterns=[Select(T, p_)])]
        fs += [ForAll([k_], Implies(And(0 <= k_, k_ < y), legal(sch(s, k_))), patterns=[sch(s, k_)]) for y in cs]
        return fs
    v.more = more
    S.inv(along(v))
    yield
    old = has(v.M, s)
    if S.branch(old):
        w = trie(S, S.a[0], M=v.M, label='contents are unchanged')
        S.result(IntVal(0), 'NULL for a present string'); kept(S, v, w)
    else:
        w = trie(S, S.a[0], M=madd(v.M, s), label='exactly the string is added')
        S.req(ForAll([k_], Implies(And(0 <= k_, k_ < slen(s)), legal(sch(s, k_))), patterns=[sch(s, k_)]), 'all characters are legal')
        S.result(lin_norm(Select(w.at, s) + HS), 'payload of the string'); kept(S, v, w)
    S.req(And(w.o['first_node'] == v.root, w.o['elem_size'] == v.o['elem_size']), 'same root')

SHORT = lambda d: slen(q_) < d
@TC('remove_rec', text='the string is no longer contained, all others are; nodes no longer needed are freed', budget=240)
def remove_rec(S):
    d, s0 = S.a[2], S.a[3]; node = S.a[1]
    v = trie(S, S.a[0]); s = S.str(s0); R = v.R
    S.req(And(0 <= d, d <= slen(s), Select(v.at, spre(s, d)) == node, node != 0), 'the node belongs to the first characters')
    S.assume(S.fresh('whole', Str) == spre(s, slen(s)))
    for x in (d, d - 1): S.assume(Implies(And(0 <= x, x < slen(s)), And(spre(s, x + 1) == snoc(spre(s, x), sch(s, x)), S.fresh('next', I) == Select(v.at, snoc(spre(s, x), sch(s, x))))))
    old = v.M
    yield
    res = to_int(S.ret)
    gone = S.branch(res != 0)
    S.req(Or(res == 0, res == 1), 'a truth value')
    if not gone:
        w = trie(S, S.a[0], M=mdel(v.M, s), label='exactly the string is removed')
        S.req(Select(w.at, spre(s, d)) == node, 'the node is kept')
    else:
        S.req(d > 0, 'the root is never freed')
        par = Select(v.at, spre(s, d - 1)); c = lin_norm(sch(s, d - 1) - LO)
        if S.inh: S.assume(S.fresh('par', I) == par)
        def fix(w):
            """the node is cut off: its slot in the parent counts as empty"""
            if not S.inh:
                w.at = S.run.ghost[GA] = Store(w.at, spre(s, d), IntVal(0))
            w.NX = Store(w.NX, par, Store(Select(w.NX, par), c, IntVal(0)))
            w.S = Store(w.S, par, Select(w.S, par) - 1)
            w.R = w.R.copy(); w.R.tree = dict(w.R.tree); nx = w.R.tree['next']
            w.R.tree['next'] = AV(nx.T, nx.n, w.NX) if isinstance(nx, AV) else w.NX; w.R.tree['num_successors'] = w.S
        o = S.obj(S.a[0], 'Trie')
        w = trie_at(S, o['first_node'], o['elem_size'], but=(par,), fix=fix); w.o = o
        ext(S, w.M, mdel(v.M, s), 'exactly the string is removed')
        S.req(o['count'] == card(w.M), 'count is exact')
        S.req(Select(w.at, spre(s, d)) == 0, 'the node is gone')
        S.req(Select(w.R.N, par), 'the parent is kept')
    S.req(And(w.o['first_node'] == v.root, w.o['elem_size'] == v.o['elem_size']), 'same root')
    S.req(ForAll([q_], Implies(SHORT(d), Select(w.at, q_) == Select(v.at, q_)), patterns=[Select(w.at, q_)]), 'shorter strings keep their node')
    S.req(ForAll([q_], Implies(Select(w.at, q_) != 0, Select(w.at, q_) == Select(v.at, q_)), patterns=[Select(w.at, q_)]), 'no node is new')
    kept(S, v, w)

@TC('trie_remove_str', text='the string is no longer contained; no other string is affected')
def trie_remove_str(S):
    v = trie(S, S.a[0]); s = S.str(S.a[1])
    yield
    w = trie(S, S.a[0], M=mdel(v.M, s), label='exactly the string is removed')
    S.req(And(w.o['first_node'] == v.root, w.o['elem_size'] == v.o['elem_size']), 'same root')
    kept(S, v, w)

# ---- release
def pfx(a, b): return And(slen(a) <= slen(b), spre(b, slen(a)) == a)
GN = ('all', 'nodes')
@TC('destroy_rec', text='frees the node and every node below it, each once')
def destroy_rec(S):
    run = S.run; node = S.a[0]
    if S.inh:
        R = S.reg('trie', run.fresh('key', I), T='TrieNode', es=run.fresh('es', I)); S.assume(And(R.es >= 0, R.es < 2**32))
        run.ghost[GA] = at = run.fresh('at', AT); run.ghost[GK] = key = run.fresh('key', AK); run.ghost[GN] = N0 = run.fresh('N0', AN)
    else:
        R = S.reg('trie', None if False else node, T='TrieNode'); at, key, N0 = run.ghost[GA], run.ghost[GK], run.ghost[GN]
    kn = run.fresh('kn', Str); S.assume(kn == Select(key, node))
    N = R.N; T, NSU, NX, X = fields(R)
    hint = lambda f: f if not S.inh else BoolVal(True)
    b = Select(key, p_)
    S.req(And(Select(N0, node), node != 0), 'the node exists')
    S.req(ForAll([p_], Implies(Select(N0, p_), Select(at, b) == p_), patterns=[Select(N0, p_)]), 'every node stands for its string')
    S.req(ForAll([s_], Implies(Select(at, s_) != 0, And(Select(N0, Select(at, s_)), Select(key, Select(at, s_)) == s_)), patterns=[Select(at, s_)]), 'the node of a string exists')
    S.req(ForAll([p_, c_], Implies(And(Select(N0, p_), 0 <= c_, c_ < NS), Select(Select(NX, p_), c_) == Select(at, snoc(b, c_ + LO))), patterns=[Select(Select(NX, p_), c_)]), 'successors are the nodes of the longer strings')
    S.req(ForAll([p_, c_], Implies(And(Select(N0, p_), legal(c_)), Select(Select(NX, p_), c_ - LO) == Select(at, snoc(b, c_))), patterns=[Select(at, snoc(b, c_))]), 'longer strings are successors')
    S.req(ForAll([p_, k_], Implies(And(Select(N0, p_), 0 <= k_, k_ <= slen(b), hint(Select(at, spre(b, slen(b))) == Select(at, b))), Select(at, spre(b, k_)) != 0), patterns=[spre(b, k_)]), 'prefixes have nodes')
    S.req(ForAll([p_, k_], Implies(And(Select(N0, p_), 0 <= k_, k_ < slen(b), hint(And(Select(at, spre(b, slen(b))) == Select(at, b), spre(b, k_ + 1) == snoc(spre(b, k_), sch(b, k_)), Select(at, spre(b, k_ + 1)) == Select(at, snoc(spre(b, k_), sch(b, k_)))))), legal(sch(b, k_))), patterns=[sch(b, k_)]), 'characters are legal')
    S.req(ForAll([p_], Implies(Select(N, p_), Select(N0, p_)), patterns=[Select(N, p_)]), 'the nodes are nodes of the trie')
    S.req(ForAll([p_], Implies(And(Select(N0, p_), pfx(kn, b)), Select(N, p_)), patterns=[Select(N, p_)]), 'everything below the node is still there')
    S.assume(ForAll([p_], Implies(slen(b) > slen(kn), And(spre(b, slen(kn) + 1) == snoc(spre(b, slen(kn)), sch(b, slen(kn))), slen(snoc(kn, sch(b, slen(kn)))) == slen(kn) + 1)), patterns=[sch(b, slen(kn))]))     # (instance of the definition of prefixes)
    S.assume(ForAll([p_], spre(b, slen(b)) == b, patterns=[spre(b, slen(kn))]))
    def done(L):
        Rs = [c for c in L.run.heap.values() if isinstance(c, RegC)]
        if not Rs: return []
        return [Select(Rs[0].N, node), ForAll([p_], Implies(Select(Rs[0].N, p_), Select(N, p_)), patterns=[Select(Rs[0].N, p_)])] + [f for i in counters(L) for f in (And(i >= 0, i <= NS), ForAll([p_], Select(Rs[0].N, p_) == And(Select(N, p_), Not(And(pfx(kn, b), slen(b) > slen(kn), sch(b, slen(kn)) < i + LO))), patterns=[Select(Rs[0].N, p_)]))]
    S.inv(done)
    yield
    R2 = S.reg('trie', R.key, T='TrieNode', es=R.es)
    if S.inh: R2.tree = dict(R.tree)
    S.req(And([x == y for x, y in zip(fields(R2), fields(R))]), 'no node is changed')
    S.req(ForAll([p_], Select(R2.N, p_) == And(Select(N, p_), Not(pfx(kn, b))), patterns=[Select(R2.N, p_)]), 'exactly the nodes of the subtree are freed')

@TC('trie_destroy', text='every node is freed, once')
def trie_destroy(S):
    v = trie(S, S.a[0])
    if S.inh: S.run.ghost[GN] = v.R.N
    yield
    S.obj(S.a[0], 'Trie')
