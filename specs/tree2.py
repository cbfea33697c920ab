"""tree_util.c continued: splicing, occurrence search, listing, evaluation and folding"""
from .tree import *
from .tree import U_sum, sum_ax, sumpfx, sumfn

# ------------------------------------------------------------ splicing a list of trees
class RoList: pass
def rolist(S, l):
    """list of readable, complete trees"""
    r = RoList(); n, p = l['size'], l['nodes']
    S.req(n < 2**44, 'number of trees is sensible')
    TA = z3.ArraySort(I, Tree)
    r.n = n
    run = S.run
    if S.inh:
        s = S.fresh('s', Snap); run.add(SnapC(s)); r.L = S.fresh('TL', TA)
        if S.branch(n == 0): r.A = None; return r
        r.A = S.blk(p, NODEP, n, ro=True)
        S.assume(ForAll([i], Implies(And(0 <= i, i < n), And(lg.node(s, Select(r.A, i)), Select(r.L, i) == lg.tv(s, Select(r.A, i)), Select(r.L, i) != TNull, Select(r.L, i) != TGone, wf(Select(r.L, i)))), patterns=[Select(r.A, i)]))
        S.assume(ForAll([i], Implies(And(0 <= i, i < n), And(lg.node(s, Select(r.A, i)), Select(r.L, i) == lg.tv(s, Select(r.A, i)), wf(Select(r.L, i)))), patterns=[Select(r.L, i)]))
        return r
    if S.branch(n == 0): r.A = None; r.L = S.fresh('TL', TA); return r
    if 'bound lists' in run.ghost:
        r.A = None; r.L = run.ghost['bound lists'](S, n, p)
        if r.L is not None: return r
    r.A = S.blk(p, NODEP, n, ro=True)
    for s in run.live_snaps():
        f = ForAll([i], Implies(And(0 <= i, i < n), And(lg.node(s, Select(r.A, i)), wf(lg.tv(s, Select(r.A, i))))), patterns=[Select(r.A, i)])
        if run.valid(f):
            r.L = S.fresh('TL', TA)
            S.assume(ForAll([i], Implies(And(0 <= i, i < n), Select(r.L, i) == lg.tv(s, Select(r.A, i))), patterns=[Select(r.L, i)]))
            return r
    run.prove(FALSE, S.label('the list consists of readable complete trees')); raise PathStuck()
def window(L):
    """a window of operands, as wide as a counter, is filled by moving or copying; everything else is as on entry"""
    fs = []; g = L.run.ghost.get('splice')
    if g is None: return fs
    T, idx, n, R = g
    for cid, c in opens(L):
        K0, P0 = L.pre0[('KT', cid)], L.pre0[('PA', cid)]
        for x in counters(L):
            for lo in (IntVal(0), idx, idx + n, idx + 1):
                inw = And(lo <= i, i < lo + x)
                fs.append(ForAll([i], Implies(And(0 <= i, i < c.n, Not(inw)), And(Select(c.KT, i) == Select(K0, i))), patterns=[Select(c.KT, i)]))
                fs.append(ForAll([i], Implies(And(0 <= i, i < c.n, Not(inw)), And(Select(c.PA, i) == Select(P0, i))), patterns=[Select(c.PA, i)]))
                fs.append(ForAll([i], Implies(inw, And(Select(c.PA, i) > 0)), patterns=[Select(c.PA, i)]))
                fs.append(ForAll([i], Implies(inw, And(Select(c.KT, i) != TGone, Select(c.KT, i) != TNull, wf(Select(c.KT, i)))), patterns=[Select(c.KT, i)]))
                for v in (kid(T, i), Select(R.L, i - idx), kid(T, i - n + 1), TGone):
                    fs.append(ForAll([i], Implies(inw, Select(c.KT, i) == v), patterns=[Select(c.KT, i)]))
        fs.append(c.n < 2**44)
    return fs
@contract('tree_replace_by_list', FILE, props=['C06', 'C09'], text='one operand is replaced by copies of a list of trees, the other operands stay in order', norm_hooks=[open_ops], budget=240, **TK)
def tree_replace_by_list(S):
    R = rolist(S, S.a[2]); idx = S.a[1]
    p = S.cell(S.a[0], NODEP); T = S.tree(p)
    S.req(And(wf(T), kind(T) == OP(), idx < nk(T)), 'operand of a complete operator node'); S.req(nk(T) + R.n < 2**43, 'number of operands is sensible')
    if S.where == 'self': S.run.ghost['splice'] = (T, idx, R.n, R)
    S.inv(window)
    yield
    q = S.cell(S.a[0], NODEP); T2 = S.tree(q)
    S.req(And(kind(T2) == OP(), tok(T2) == tok(T), opp(T2) == opp(T), nk(T2) == nk(T) - 1 + R.n, wf(T2)), 'same node with the operand replaced by the list')
    S.req(ForAll([i], Implies(And(0 <= i, i < idx), kid(T2, i) == kid(T, i)), patterns=[kid(T2, i)]), 'operands before stay')
    S.req(ForAll([i], Implies(And(idx <= i, i < idx + R.n), kid(T2, i) == Select(R.L, i - idx)), patterns=[kid(T2, i)]), 'copies of the list in order')
    S.req(ForAll([i], Implies(And(idx + R.n <= i, i < nk(T2)), kid(T2, i) == kid(T, i - R.n + 1)), patterns=[kid(T2, i)]), 'operands behind stay in order')

# ------------------------------------------------------------ occurrences of a name
@contract('get_variable_nodes', FILE, props=['C05', 'C06', 'C09', 'C18'], text='number of occurrences of the name (with no buffer: nothing is written)', axioms=lambda: [sum_ax(occ, (Str,))], norm_hooks=[open_ops], **TK)
def get_variable_nodes(S):
    S.req(S.a[2] == 0, 'verified for calls without a buffer')
    if S.branch(S.a[1] == 0):
        yield; S.result(IntVal(0), 'no name'); return
    n = S.str(S.a[1]); p = S.cell(S.a[0], NODEP, ro=True); T = S.rotree(p); S.req(wf(T), 'tree is complete')
    if S.where == 'self':
        S.assume(U_sum(occ, occp, T, (n,), If(nm(T) == n, IntVal(1), IntVal(0)))); S.run.ghost['sum'] = (occp, T, (n,))
    S.inv(sumpfx('sum')); yield
    S.result(occ(T, n), 'number of occurrences')

# ------------------------------------------------------------ first node with an operator
hasop = Function('hasop', Tree, I, z3.BoolSort()); fop = Function('fop', Tree, I, Tree)   # fop: first such subtree, operands after their node, left to right
at = Function('at', Snap, I, Tree, z3.BoolSort())                                          # slot address holding this subtree
def U_fop(T, o):
    f = Int('f!op')
    return And(Implies(kind(T) != OP(), Not(hasop(T, o))),
        Implies(And(kind(T) == OP(), lg.opid(opp(T)) == o), And(hasop(T, o), fop(T, o) == T)),
        Implies(And(kind(T) == OP(), lg.opid(opp(T)) != o), And(
            hasop(T, o) == Exists([f], And(0 <= f, f < nk(T), hasop(kid(T, f), o))),
            ForAll([f], Implies(And(0 <= f, f < nk(T), hasop(kid(T, f), o), ForAll([i], Implies(And(0 <= i, i < f), Not(hasop(kid(T, i), o))), patterns=[kid(T, i)])), fop(T, o) == fop(kid(T, f), o)), patterns=[fop(kid(T, f), o)]))))
def nohit(L):
    g = L.run.ghost.get('fop')
    if g is None: return []
    return [ForAll([i], Implies(And(0 <= i, i < x), Not(hasop(kid(g[0], i), g[1]))), patterns=[kid(g[0], i)]) for x in counters(L)]
@contract('find_op', FILE, props=['C05', 'C14'], text='NULL exactly if no node has the operator, otherwise the place of the first such node', norm_hooks=[open_ops], **TK)
def find_op(S):
    p = S.cell(S.a[0], NODEP, ro=True); T = S.rotree(p); S.req(wf(T), 'tree is complete'); S.req(And(lg.validop(S.a[1]), S.a[1] != 0), 'operator is valid')
    o = lg.opid(S.a[1])
    if S.where == 'self': S.assume(U_fop(T, o)); S.run.ghost['fop'] = (T, o)
    S.inv(nohit); yield
    S.req((S.ret != 0) == hasop(T, o), 'found exactly if it occurs')
    hit = Function('fopslot', I, I, Tree, I, I)(S.a[0], p, T, o)
    if not S.inh and S.valid(S.ret != 0):
        # the place: this slot, or the place reported for an operand
        if S.ret.eq(S.a[0]): S.req(fop(T, o) == T, 'first occurrence')
        else:
            r = [x for x in S.run.ghost.get('places', []) if x[0].eq(S.ret)]
            S.req(Or([fop(T, o) == x[1] for x in r] + [FALSE]), 'first occurrence')
    if S.inh: S.run.ghost['places'] = S.run.ghost.get('places', []) + [(S.ret, fop(T, o))]

# ------------------------------------------------------------ numbering variables by a list of names
fidx = Function('fidx', z3.ArraySort(I, Str), I, Str, I)     # first position of a name among the first c, or -1
def fidx_ax():
    N = Const('N!f', z3.ArraySort(I, Str)); c = Int('c!f'); x = Const('x!f', Str)
    f = fidx(N, c, x)
    return ForAll([N, c, x], And(f >= -1, Implies(f >= 0, And(f < c, Select(N, f) == x)), ForAll([i], Implies(And(0 <= i, i < If(f >= 0, f, c)), Select(N, i) != x), patterns=[Select(N, i)])), patterns=[f])
def fidx_lemma(N, c, x, r):
    """least index is unique"""
    return Implies(And(0 <= r, r < c, Select(N, r) == x, ForAll([i], Implies(And(0 <= i, i < r), Select(N, i) != x), patterns=[Select(N, i)])), fidx(N, c, x) == r)
idmap = Function('idmap', Tree, z3.ArraySort(I, Str), I, Tree)
def samenode(s, T): return And(s != TNull, kind(s) == kind(T), tok(s) == tok(T), wf(s) == wf(T))
def U_idmap(T, N, c):
    s = idmap(T, N, c); f = fidx(N, c, nm(T))
    return And(Implies(kind(T) == CO(), s == T),
        Implies(kind(T) == VA(), And(samenode(s, T), nm(s) == nm(T), vid(s) == If(f >= 0, f, vid(T)))),
        Implies(kind(T) == OP(), And(samenode(s, T), opp(s) == opp(T), nk(s) == nk(T), ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(s, i) == idmap(kid(T, i), N, c)), patterns=[kid(s, i), idmap(kid(T, i), N, c)]))))
def nomatch(L):
    g = L.run.ghost.get('nm')
    if g is None: return []
    N, x = g[0], g[1]
    return [ForAll([i], Implies(And(0 <= i, i < y), Select(N, i) != x), patterns=[Select(N, i)]) for y in counters(L)]
def ronames(S, p, n):
    """array of readable strings; returns the sequence of their values"""
    N = S.fresh('N', z3.ArraySort(I, Str)); run = S.run
    if not S.inh:
        for c in run.heap.values():      # an array of own strings
            if isinstance(c, Blk) and c.T[0] == 'blob' and run.valid(c.base == p):
                for R in run.heap.values():
                    if isinstance(R, RegC) and R.kind == 'strs' and 'sv' in R.tree:
                        q = Function('unp:ptr', lg.Blob, I)(Select(c.tree, i))
                        S.req(n <= c.n, 'number of names'); S.req(ForAll([i], Implies(And(0 <= i, i < n), Select(R.N, q)), patterns=[Select(c.tree, i)]), 'the names are readable strings')
                        S.assume(ForAll([i], Implies(And(0 <= i, i < n), Select(N, i) == Select(R.tree['sv'], q)), patterns=[Select(N, i), Select(c.tree, i)]))
                        return N
    A = S.blk(p, PTR(CHAR), n, ro=True)
    if S.inh:
        s = S.fresh('s', Snap); run.add(SnapC(s))
        S.assume(ForAll([i], Implies(And(0 <= i, i < n), And(lg.cstr(s, Select(A, i)), lg.strat(s, Select(A, i)) == Select(N, i))), patterns=[Select(A, i)]))
        S.run.ghost['ronames'] = (A, N)
        return N
    g = run.ghost.get('ronames')
    if g is not None and run.valid(ForAll([i], Implies(And(0 <= i, i < n), Select(A, i) == Select(g[0], i)), patterns=[Select(A, i)])): return g[1]
    for s in run.live_snaps():
        if run.valid(ForAll([i], Implies(And(0 <= i, i < n), lg.cstr(s, Select(A, i))), patterns=[Select(A, i)])):
            S.assume(ForAll([i], Implies(And(0 <= i, i < n), Select(N, i) == lg.strat(s, Select(A, i))), patterns=[Select(N, i), Select(A, i)]))
            return N
    run.prove(FALSE, S.label('the names are readable strings')); raise PathStuck()
@contract('tree_copy_IDs', FILE, props=['C05', 'C09'], text='every variable whose name is in the list gets its position as id; nothing else changes', axioms=lambda: [fidx_ax()], norm_hooks=[open_ops], **TK)
def tree_copy_IDs(S):
    n = S.a[1]
    if S.branch(n == 0): N = Const('Nempty', z3.ArraySort(I, Str))
    else: N = ronames(S, S.a[2], n)
    T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete')
    if S.where == 'self':
        facts(S.run, U_idmap(T, N, n)); S.run.ghost['map'] = T; S.run.ghost['nm'] = (N, nm(T))
    S.inv(kidmap(lambda run, t: idmap(t, N, n))); S.inv(nomatch); yield
    T2 = S.tree(S.a[0], idmap(T, N, n), 'tree'); S.req(wf(idmap(T, N, n)), 'tree is complete')

# ------------------------------------------------------------ evaluation
DA = z3.ArraySort(I, D)
lval = Function('lval', I, I, I, DA, D); lerr = Function('lerr', I, I, I, DA, I)     # listener, operator, number of operands, operands
ev = Function('ev', I, Tree, D); er = Function('er', I, Tree, I); EV = Function('EV', I, Tree, DA)
ea = Function('ea', I, Snap, I, I)               # address of the first failing node
def cong(l, o, n, A, B):
    """a listener reads exactly its operands: equal operands, equal result"""
    w = z3.FreshConst(I, 'w')
    return Or(And(lval(l, o, n, A) == lval(l, o, n, B), lerr(l, o, n, A) == lerr(l, o, n, B)), And(0 <= w, w < n, Select(A, w) != Select(B, w)))
def VENC(S): return IntVal(S.run.e.macros['LISTENERERR_VARIABLE_ENCOUNTERED'])
def U_ev(S, l, T, s=None, p=None):
    A = EV(l, T); f = Int('f!ev')
    okall = ForAll([i], Implies(And(0 <= i, i < nk(T)), er(l, kid(T, i)) == 0), patterns=[kid(T, i)])
    first = lambda body: ForAll([f], Implies(And(0 <= f, f < nk(T), er(l, kid(T, f)) != 0, ForAll([i], Implies(And(0 <= i, i < f), er(l, kid(T, i)) == 0), patterns=[kid(T, i)])), body(f)), patterns=[er(l, kid(T, f))])
    r = [Implies(kind(T) == CO(), And(er(l, T) == 0, ev(l, T) == cval(T))),
        Implies(kind(T) == VA(), er(l, T) == VENC(S)),
        Implies(kind(T) == OP(), And(
            ForAll([i], Implies(And(0 <= i, i < nk(T)), Select(A, i) == ev(l, kid(T, i))), patterns=[Select(A, i)]),
            first(lambda f: er(l, T) == er(l, kid(T, f))),
            Implies(okall, And(er(l, T) == lerr(l, opp(T), nk(T), A), Implies(er(l, T) == 0, ev(l, T) == lval(l, opp(T), nk(T), A))))))]
    if s is not None:
        r += [Implies(kind(T) == VA(), ea(l, s, p) == p),
              Implies(kind(T) == OP(), And(first(lambda f: ea(l, s, p) == ea(l, s, lg.cptr(s, p, f))), Implies(okall, ea(l, s, p) == p)))]
    return And(r)
def evals(L):
    """operands evaluated so far are in the array and had no error"""
    g = L.run.ghost.get('ev'); fs = []
    if g is None: return fs
    l, T = g
    for x in counters(L):
        fs.append(ForAll([i], Implies(And(0 <= i, i < x), er(l, kid(T, i)) == 0), patterns=[kid(T, i)]))
        for cid in sorted(L.pre.heap):
            c = L.run.heap.get(cid)
            if isinstance(c, Blk) and c.T == DOUBLE: fs.append(ForAll([i], Implies(And(0 <= i, i < x), Select(c.tree, i) == ev(l, kid(T, i))), patterns=[Select(c.tree, i)]))
    return fs
def listener_hook(run, f, args, n):
    """call of a TreeListener: value and error depend on operator, number of operands and operands"""
    l = run.ghost.get('listener')
    if l is None or len(args) != 4 or not (f.eq(l)): return None
    o, num, a, out = args[0], args[1], lin_norm(args[2]), args[3]
    run.prove(And(lg.validop(o), o != 0), 'listener gets a valid operator')
    if run.branch(num == 0): A = K(I, z3.FPVal(0.0, D))
    else:
        run.type_raw_as(a, DOUBLE)
        cid = run.find_blk(a, DOUBLE)
        if cid is None: run.prove(FALSE, 'listener gets the operands'); raise PathStuck()
        run.prove(num <= run.heap[cid].n, 'listener gets all operands'); A = run.heap[cid].tree
    g = run.ghost.get('ev')
    if g is not None: run.assume(cong(l, o, num, A, EV(l, g[1])))
    e = lerr(l, o, num, A); run.assume(And(e >= -2**31, e < 2**31))
    lv = run.resolve(lin_norm(out), DOUBLE)
    v = run.fresh('out', D); run.assume(Implies(e == 0, v == lval(l, o, num, A))); run.store(lv, v)
    run.e.notes.add('evaluation listener: value and error are a function of operator and operands, writes only its result')
    return (e,)
CNODEP = NODEP
@contract('tree_reduce', FILE, props=['C07', 'C08', 'C18'], text='value by structural recursion; the first failing node and its error otherwise', fnptr=listener_hook, norm_hooks=[open_ops], budget=200, **TK)
def tree_reduce(S):
    T = S.rotree(S.a[0]); S.req(wf(T), 'tree is complete'); l = S.a[1]; s = S.run.snap_for(lin_norm(S.a[0])) if S.inh else None
    if not S.inh:
        s = S.run.snap_for(lin_norm(S.a[0]))
        if s is None: s = S.fresh('s', Snap)
    old = S.cell(S.a[2], DOUBLE)
    haserr = S.branch(S.a[3] != 0)
    if haserr: olde = S.cell(S.a[3], PTR(('rec', 'Node')))
    if S.where == 'self':
        S.run.ghost['listener'] = l; S.run.ghost['ev'] = (l, T); S.assume(U_ev(S, l, T, s, S.a[0]))
    S.inv(evals); yield
    v = S.cell(S.a[2], DOUBLE)
    S.result(er(l, T), 'error of the evaluation')
    S.req(Implies(er(l, T) == 0, v == ev(l, T)), 'value of the expression')
    if haserr:
        e = S.cell(S.a[3], PTR(('rec', 'Node')))
        S.req(e == If(er(l, T) == 0, olde, ea(l, s, S.a[0])), 'first failing node')

def bv(l): return None
fe = Function('fe', I, Tree, I); fd = Function('fd', I, Tree, Tree)    # folding: error and resulting tree
def constnode(s, v, t): return And(s != TNull, s != TGone, kind(s) == CO(), cval(s) == v, tok(s) == t, wf(s))
def U_fd(l, T):
    f = Int('f!fd'); s = fd(l, T)
    okall = ForAll([i], Implies(And(0 <= i, i < nk(T)), fe(l, kid(T, i)) == 0), patterns=[kid(T, i)])
    first = ForAll([f], Implies(And(0 <= f, f < nk(T), fe(l, kid(T, f)) != 0, ForAll([i], Implies(And(0 <= i, i < f), fe(l, kid(T, i)) == 0), patterns=[kid(T, i)])), fe(l, T) == fe(l, kid(T, f))), patterns=[fe(l, kid(T, f))])
    return And(Implies(nvars(T) == 0, And(fe(l, T) == er(l, T), Implies(er(l, T) == 0, constnode(s, ev(l, T), tok(T))))),
        Implies(And(nvars(T) != 0, kind(T) != OP()), And(fe(l, T) == 0, s == T)),
        Implies(And(nvars(T) != 0, kind(T) == OP()), And(first, Implies(okall, And(fe(l, T) == 0, s != TNull, s != TGone, kind(s) == OP(), tok(s) == tok(T), opp(s) == opp(T), nk(s) == nk(T),
            ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(s, i) == fd(l, kid(T, i))), patterns=[kid(s, i), fd(l, kid(T, i))]))))))
def folded(L):
    g = L.run.ghost.get('fold'); fs = []
    if g is None: return fs
    l, T = g
    return [ForAll([i], Implies(And(0 <= i, i < x), fe(l, kid(T, i)) == 0), patterns=[kid(T, i)]) for x in counters(L)]
@contract('tree_reduce_constant_subtrees', FILE, props=['C07', 'C09'], text='every maximal variable-free subtree becomes its value; all other nodes stay; error of the first subtree that cannot be evaluated', fnptr=listener_hook,
          axioms=lambda: [sum_ax(nvars)], norm_hooks=[open_ops], budget=200, **TK)
def tree_reduce_constant_subtrees(S):
    l = S.a[1]; p = S.cell(S.a[0], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete')
    haserr = S.branch(S.a[2] != 0)
    if haserr: olde = S.cell(S.a[2], PTR(('rec', 'Node')))
    if S.where == 'self':
        S.run.ghost['fold'] = (l, T); S.run.ghost['map'] = T; S.assume(U_fd(l, T))
    S.inv(kidmap(lambda run, t: fd(l, t))); S.inv(folded); yield
    q = S.cell(S.a[0], NODEP); S.result(fe(l, T), 'error of the folding')
    if S.branch(fe(l, T) == 0): S.tree(q, fd(l, T), 'tree'); S.req(wf(fd(l, T)), 'tree is complete')
    else: T2 = S.tree(q); S.req(wf(T2), 'tree is complete')
    if haserr: S.cell(S.a[2], PTR(('rec', 'Node')))

# non-compositional operators: nodes with the operator become the callback's value, operands first
rd = Function('rd', I, I, Tree, Tree); cbv = Function('cbv', I, Tree, D)       # callback, operator; value of the callback for a node
def U_rd(o, cb, T, K):
    """K: the node with its operands reduced"""
    s = rd(o, cb, T)
    return And(Implies(kind(T) != OP(), s == T),
        Implies(kind(T) == OP(), And(K != TNull, kind(K) == OP(), tok(K) == tok(T), opp(K) == opp(T), nk(K) == nk(T),
            ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(K, i) == rd(o, cb, kid(T, i))), patterns=[kid(K, i), rd(o, cb, kid(T, i))]),
            Implies(opp(T) != o, s == K), Implies(opp(T) == o, constnode(s, cbv(cb, K), tok(T))))))
def cb_hook(run, f, args, n):
    g = run.ghost.get('rd')
    if g is None or not f.eq(g[1]) or len(args) != 2: return None
    o, cb, T, KK = g
    num, ch = args
    base = lin_norm(ch - run.node_off('OperatorNode', 'children'))
    cid = run.find_tree(base)
    if cid is None: run.prove(FALSE, 'callback gets the operands of the node'); raise PathStuck()
    T2 = run.close_tree(cid)
    run.prove(And(num == nk(T2), kind(T2) == OP()), 'callback gets all operands')
    run.prove_tree_eq(T2, KK, 'callback gets the node with its operands reduced')
    run.e.notes.add('callback: its value is a function of the node, it changes nothing')
    return (cbv(cb, T2),)
@contract('tree_reduce_ops', FILE, props=['C07', 'C08'], text='every node with the operator becomes the value the callback has for it, operands first; all other nodes stay', fnptr=cb_hook, norm_hooks=[open_ops], budget=200, **TK)
def tree_reduce_ops(S):
    o, cb = S.a[1], S.a[2]; p = S.cell(S.a[0], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete')
    if S.where == 'self':
        KK = S.fresh('K', Tree); S.assume(U_rd(o, cb, T, KK)); S.run.ghost['rd'] = (o, cb, T, KK); S.run.ghost['map'] = T
    S.inv(kidmap(lambda run, t: rd(o, cb, t))); yield
    q = S.cell(S.a[0], NODEP); S.tree(q, rd(o, cb, T), 'tree'); S.req(wf(rd(o, cb, T)), 'tree is complete')

# ------------------------------------------------------------ listing variables
# sequence of names found so far: (c, N); c == -1: buffer was too small. gstr: string at an address of name memory (names are never written)
SA = z3.ArraySort(I, Str)
gstr = Function('gstr', I, Str); cgstr = Function('cgstr', I, z3.BoolSort())
LC = Function('LC', I, Tree, I, SA, I); LN = Function('LN', I, Tree, I, SA, SA); LT = Function('LT', I, Tree, I, SA, Tree)     # buffer size, tree, state: count, names, renumbered tree
LCp = Function('LCp', I, Tree, I, SA, I, I); LNp = Function('LNp', I, Tree, I, SA, I, SA)
def gstr_ax():
    s = Const('s!g', Snap); p = Int('p!g'); off = GOFF[0]
    return ForAll([s, p], Implies(And(lg.node(s, p), kind(lg.tv(s, p)) == VA()), And(cgstr(p + off), gstr(p + off) == nm(lg.tv(s, p)), p + off < lg.PTRMAX)), patterns=[lg.node(s, p)])
GOFF = [24]
def U_list(b, T, c, N):
    f = fidx(N, c, nm(T)); s = LT(b, T, c, N)
    return And(Implies(c == -1, And(LC(b, T, c, N) == -1, LN(b, T, c, N) == N, s == T)),
        Implies(And(c >= 0, kind(T) == CO()), And(LC(b, T, c, N) == c, LN(b, T, c, N) == N, s == T)),
        Implies(And(c >= 0, kind(T) == VA()), And(
            Implies(f >= 0, And(LC(b, T, c, N) == c, LN(b, T, c, N) == N, samenode(s, T), nm(s) == nm(T), vid(s) == f)),
            Implies(And(f == -1, c < b), And(LC(b, T, c, N) == c + 1, LN(b, T, c, N) == Store(N, c, nm(T)), samenode(s, T), nm(s) == nm(T), vid(s) == c)),
            Implies(And(f == -1, c >= b), And(LC(b, T, c, N) == -1, LN(b, T, c, N) == N, s == T)))),
        Implies(And(c >= 0, kind(T) == OP()), And(
            LCp(b, T, c, N, IntVal(0)) == c, LNp(b, T, c, N, IntVal(0)) == N,
            ForAll([i], Implies(And(0 <= i, i < nk(T)), And(LCp(b, T, c, N, i + 1) == LC(b, kid(T, i), LCp(b, T, c, N, i), LNp(b, T, c, N, i)), LNp(b, T, c, N, i + 1) == LN(b, kid(T, i), LCp(b, T, c, N, i), LNp(b, T, c, N, i)))),
                   patterns=[kid(T, i)]),
            LC(b, T, c, N) == LCp(b, T, c, N, nk(T)), LN(b, T, c, N) == LNp(b, T, c, N, nk(T)),
            samenode(s, T), opp(s) == opp(T), nk(s) == nk(T), ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(s, i) == LT(b, kid(T, i), LCp(b, T, c, N, i), LNp(b, T, c, N, i))), patterns=[kid(s, i)]))))
def listing(L):
    g = L.run.ghost.get('list'); fs = []
    if g is None: return fs
    b, T, c, N, outp = g
    cs = counters(L)
    for m, x in enumerate(cs):
        for n, y in enumerate(cs):
            if m != n: fs.append(Implies(And(0 <= y, y <= nk(T)), x == LCp(b, T, c, N, y)))
        for cid in sorted(L.pre.heap):
            h = L.run.heap.get(cid)
            if isinstance(h, Blk) and h.base.eq(outp):
                fs.append(ForAll([i], Implies(And(0 <= i, i < h.n), gstr(Select(h.tree, i)) == Select(LNp(b, T, c, N, x), i)), patterns=[Select(h.tree, i)]))
                for y in cs:
                    fs.append(ForAll([i], Implies(And(0 <= i, i < y), cgstr(Select(h.tree, i))), patterns=[Select(h.tree, i)]))
        fs += [x >= -1, x <= b]
        for cid, o in opens(L):
            fs.append(ForAll([i], Implies(And(0 <= i, i < x), Select(o.KT, i) == LT(b, kid(T, i), LCp(b, T, c, N, i), LNp(b, T, c, N, i))), patterns=[Select(o.KT, i)]))
    return fs
def gstr_hook(run, p):
    run.prove(cgstr(p), 'listed name is a readable string')
    return gstr(p)
def seqstate(S, b, A, T):
    """the names in the buffer as a sequence value; equal to the known sequence it was proved equal to"""
    run = S.run; N = S.fresh('N', SA)
    S.assume(ForAll([i], Select(N, i) == gstr(Select(A, i)), patterns=[Select(N, i), Select(A, i)]))
    g = run.ghost.get('list')
    if g is not None and S.where != 'self':
        for v in list(run.frames[-1].env.values()):
            if z3.is_expr(v) and v.sort() == I and not z3.is_int_value(z3.simplify(v)):
                X = LNp(g[0], g[1], g[2], g[3], v)
                f = ForAll([i], Implies(And(0 <= i, i < b), Select(N, i) == Select(X, i)), patterns=[Select(N, i), Select(X, i)])
                if run.valid(f): return X
    return N
@contract('list_variables_rec', FILE, props=['C05', 'C09', 'C14', 'C18'], text='appends the names not seen before in order of first occurrence and numbers every variable by its position; -1 when the buffer is too small',
          axioms=lambda: [fidx_ax(), gstr_ax()], norm_hooks=[open_ops], string_hook=gstr_hook, budget=300, **TK)
def list_variables_rec(S):
    b = S.a[1]; c = S.a[2]; T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete')
    S.req(And(c >= -1, c <= b, b < 2**40), 'number of names found so far')
    S.req(b >= 1, 'there is a buffer'); nobuf = False
    if True:
        A = S.blk(S.a[3], PTR(CHAR), b); N = seqstate(S, b, A, T); S.run.ghost['entryN'] = N
        S.req(ForAll([i], Implies(And(0 <= i, i < c), cgstr(Select(A, i))), patterns=[Select(A, i)]), 'names found so far are readable')
    if S.where == 'self':
        S.assume(U_list(b, T, c, N)); S.run.ghost['list'] = (b, T, c, N, lin_norm(S.a[3])); S.run.ghost['map'] = T; S.run.ghost['nm'] = (N, nm(T))
    S.inv(kidmap(lambda run, t: t)); S.inv(nomatch); S.inv(listing); yield
    S.result(LC(b, T, c, N), 'number of names, -1 if there is no room')
    S.tree(S.a[0], LT(b, T, c, N), 'tree'); S.req(wf(LT(b, T, c, N)), 'tree is complete')
    S.req(And(S.ret >= -1, S.ret <= b), 'number of names fits the buffer')
    if True:
        A2 = S.blk(S.a[3], PTR(CHAR), b)
        S.req(ForAll([i], Implies(And(0 <= i, i < b), gstr(Select(A2, i)) == Select(LN(b, T, c, N), i)), patterns=[Select(A2, i)]), 'names in order of first occurrence')
        S.req(ForAll([i], Implies(And(0 <= i, i < S.ret), cgstr(Select(A2, i))), patterns=[Select(A2, i)]), 'listed names are readable')

N0 = Const('N0!names', SA)
def by_induction(*steps):
    """steps of an induction: each is checked on its own by the solver"""
    for f in steps: lemma_only(f)
def lemma_only(f):
    k = f.sexpr(); r = _lem.get(k)
    if r is None:
        s = z3.Solver(); s.set('timeout', 20000); s.add(Not(f)); r = s.check() == z3.unsat; _lem[k] = r
    if not r: raise Unsupported('lemma not proved: ' + k[:300])
_lem = {}
def canonical(b, T, N):
    """names beyond those already found are not looked at: listing from an empty sequence does not depend on the buffer"""
    a, c, i_ = Ints('a!L c!L i!L'); X, Y = Consts('X!L Y!L', SA); t = Const('t!L', Tree)
    agree = lambda P, Q, n: ForAll([a], Implies(And(0 <= a, a < n), Select(P, a) == Select(Q, a)), patterns=[Select(P, a), Select(Q, a)])
    same = lambda t, c, X, Y: And(LC(b, t, c, X) == LC(b, t, c, Y), agree(LN(b, t, c, X), LN(b, t, c, Y), LC(b, t, c, X)), LT(b, t, c, X) == LT(b, t, c, Y))
    hyp = And(c >= -1, agree(X, Y, c)); U = And(U_list(b, t, c, X), U_list(b, t, c, Y), fidx_ax())
    P_ = lambda n: And(LCp(b, t, c, X, n) == LCp(b, t, c, Y, n), agree(LNp(b, t, c, X, n), LNp(b, t, c, Y, n), LCp(b, t, c, X, n)))
    f, g = fidx(X, c, nm(t)), fidx(Y, c, nm(t))
    by_induction(Implies(And(hyp, U), f == g),
        Implies(And(hyp, U, f == g, Or(c == -1, kind(t) == CO())), same(t, c, X, Y)),
        Implies(And(hyp, U, f == g, c >= 0, kind(t) == VA()), And(LC(b, t, c, X) == LC(b, t, c, Y), agree(LN(b, t, c, X), LN(b, t, c, Y), LC(b, t, c, X)))),
        # the renumbered leaf is determined by its kind, name, position and number
        Implies(And(hyp, U, f == g, c >= 0, kind(t) == VA()), And(vid(LT(b, t, c, X)) == vid(LT(b, t, c, Y)), Or(LT(b, t, c, X) == LT(b, t, c, Y), And(nm(LT(b, t, c, X)) == nm(LT(b, t, c, Y)), tok(LT(b, t, c, X)) == tok(LT(b, t, c, Y)))))),
        Implies(And(hyp, U, c >= 0, kind(t) == OP()), P_(IntVal(0))),
        Implies(And(hyp, U, c >= 0, kind(t) == OP(), 0 <= i_, i_ < nk(t), P_(i_), kid(t, i_) == kid(t, i_),
                    Implies(agree(LNp(b, t, c, X, i_), LNp(b, t, c, Y, i_), LCp(b, t, c, X, i_)), And(LC(b, kid(t, i_), LCp(b, t, c, X, i_), LNp(b, t, c, X, i_)) == LC(b, kid(t, i_), LCp(b, t, c, Y, i_), LNp(b, t, c, Y, i_)),
                        agree(LN(b, kid(t, i_), LCp(b, t, c, X, i_), LNp(b, t, c, X, i_)), LN(b, kid(t, i_), LCp(b, t, c, Y, i_), LNp(b, t, c, Y, i_)), LC(b, kid(t, i_), LCp(b, t, c, X, i_), LNp(b, t, c, X, i_)))))), P_(i_ + 1)),
        Implies(And(hyp, U, c >= 0, kind(t) == OP(), P_(nk(t))), And(LC(b, t, c, X) == LC(b, t, c, Y), agree(LN(b, t, c, X), LN(b, t, c, Y), LC(b, t, c, X)))))
    z = IntVal(0)
    return And(LC(b, T, z, N) == LC(b, T, z, N0), ForAll([i], Implies(And(0 <= i, i < LC(b, T, z, N0)), Select(LN(b, T, z, N), i) == Select(LN(b, T, z, N0), i)), patterns=[Select(LN(b, T, z, N), i), Select(LN(b, T, z, N0), i)]), LT(b, T, z, N) == LT(b, T, z, N0))
def ax_listed():
    b, c = Ints('b!L c!L'); t, N = Const('t!L', Tree), Const('N!L', SA); s = LT(b, t, c, N)
    return [ForAll([b, t, c, N], And(kind(s) == kind(t), tok(s) == tok(t), wf(s) == wf(t), Implies(kind(t) == OP(), And(opp(s) == opp(t), nk(s) == nk(t)))), patterns=[s]),
            ForAll([b, t, c, N, i], Implies(And(kind(t) == OP(), 0 <= i, i < nk(t)), kind(kid(s, i)) == kind(kid(t, i))), patterns=[kid(s, i)])]
@contract('list_variables', FILE, props=['C05', 'C09', 'C14', 'C18'], text='the distinct names in order of first occurrence; every variable is numbered by its position', axioms=lambda: [fidx_ax()], norm_hooks=[open_ops], budget=200, string_hook=gstr_hook, **TK)
def list_variables(S):
    b = S.a[1]; T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete'); S.req(And(b >= 1, b < 2**40), 'buffer size')
    A = S.blk(S.a[2], PTR(CHAR), b)
    hasflag = S.branch(S.a[3] != 0)
    if hasflag: S.cell(S.a[3], BOOL)
    yield
    # whatever the buffer held before is not looked at: the names of an empty sequence
    N = N0
    if not S.inh and 'entryN' in S.run.ghost: S.assume(canonical(b, T, S.run.ghost['entryN']))
    c = LC(b, T, IntVal(0), N)
    S.tree(S.a[0], LT(b, T, IntVal(0), N), 'tree'); S.req(wf(LT(b, T, IntVal(0), N)), 'tree is complete')
    S.result(If(c == -1, b, c), 'number of names')
    S.req(And(c >= -1, c <= b))
    if hasflag:
        S.req(S.cell(S.a[3], BOOL) == If(c == -1, IntVal(0), IntVal(1)), 'tells whether the buffer was large enough')
    A2 = S.blk(S.a[2], PTR(CHAR), b)
    if S.inh:
        s = S.fresh('s', Snap); S.run.add(SnapC(s))
        S.assume(ForAll([i], Implies(And(0 <= i, i < c), And(lg.cstr(s, Select(A2, i)), lg.strat(s, Select(A2, i)) == Select(LN(b, T, IntVal(0), N), i))), patterns=[Select(A2, i)]))
        S.run.ghost['ronames'] = (A2, LN(b, T, IntVal(0), N)); S.g['names'] = (c, LN(b, T, IntVal(0), N))
    else:
        S.req(ForAll([i], Implies(And(0 <= i, i < c), And(cgstr(Select(A2, i)), gstr(Select(A2, i)) == Select(LN(b, T, IntVal(0), N), i))), patterns=[Select(A2, i)]), 'names in order of first occurrence')
