"""matching.c, rewrite_rule.c: search for the first matching subtree, application of a rule, application of a rule set.
What matching at the root means is abstract (mt, bnd); everything above it is under contract."""
from .tree2 import *
from .tree import eqpfx
MF = 'src/engine/transformation/matching.c'; RF = 'src/engine/transformation/rewrite_rule.c'; TF = 'src/engine/transformation/transformation.c'
B = z3.BoolSort(); Pat = z3.DeclareSort('Pat'); Rule = z3.DeclareSort('Rule'); Bind = z3.DeclareSort('Bind')
IA = z3.ArraySort(I, I)
mt = Function('mt', Tree, Pat, I, B); bnd = Function('bnd', Tree, Pat, I, Bind)                  # pattern (with conditions, checker) matches the root; its first binding
bindv = Function('bindv', IA, IA, Bind)                                                          # binding stored in a Matching
hm = Function('hm', Tree, Pat, I, B); fm = Function('fm', Tree, Pat, I, Tree)                    # some subtree matches; the first one, top-down, left to right
plug = Function('plug', Tree, Pat, I, Tree, Tree)                                                # the tree with its first matching subtree exchanged
inst = Function('inst', Tree, Bind, Tree)                                                        # variables replaced by what they are bound to
vok = Function('vok', Tree, Bind, B)                                                             # every variable is bound
stok = Function('stok', Tree, I, Tree)                                                           # same tree, all nodes at this position
patok = Function('patok', I, B); patof = Function('patof', I, Pat)                               # patterns and rules in memory
ruleok = Function('ruleok', I, B); ruleof = Function('ruleof', I, Rule)
pat = Function('pat', Rule, Pat); rhs = Function('rhs', Rule, Tree)
t_ = Const('t!w', Tree)
def binding(o): 
    a = o['mapped_nodes'].tree
    return bindv(a['size'], a['nodes'])

# ------------------------------------------------------------ equality of lists
def eqlist(L):
    g = L.run.ghost.get('lists')
    if g is None: return []
    return [ForAll([i], Implies(And(0 <= i, i < x), teq(Select(g[0].L, i), Select(g[1].L, i))), patterns=[Select(g[0].L, i)]) for x in counters(L)]
@contract('nodelists_equal', MF, props=['C09'], text='true exactly for lists of the same length with equal trees', norm_hooks=[open_ops], **TK)
def nodelists_equal(S):
    a, b = (S.obj(p, 'NodeList', ro=True) for p in (S.a[0], S.a[1]))
    x, y = rolist(S, a), rolist(S, b)
    if S.where == 'self': S.run.ghost['lists'] = (x, y)
    S.inv(eqlist); yield
    S.req(to_bool(S.ret) == And(x.n == y.n, ForAll([i], Implies(And(0 <= i, i < x.n), teq(Select(x.L, i), Select(y.L, i))), patterns=[Select(x.L, i)])), 'same length and equal trees')

# ------------------------------------------------------------ search
def rotree_at(S, slot):
    p = S.cell(slot, NODEP, ro=True); T = S.rotree(p); S.req(wf(T), 'tree is complete')
    return p, T
@contract('get_matching', MF, props=[], trusted='matching at the root of a tree (extend_matching and the search through operand splits) is covered by the bounded harness; here: whether it matches and the first binding are functions of tree, pattern and checker, and nothing but the result is written')
def get_matching(S):
    S.req(S.a[0] != 0); p, T = rotree_at(S, S.a[0]); S.req(patok(S.a[1]), 'pattern')
    o = S.obj(S.a[3], 'Matching'); yield
    w = S.obj(S.a[3], 'Matching'); P = patof(S.a[1])
    S.result(mt(T, P, S.a[2]))
    S.req(Implies(mt(T, P, S.a[2]), binding(w) == bnd(T, P, S.a[2])))
def U_fm(T, P, c):
    f = Int('f!m')
    return And(Implies(mt(T, P, c), And(hm(T, P, c), fm(T, P, c) == T)),
        Implies(And(Not(mt(T, P, c)), kind(T) != OP()), Not(hm(T, P, c))),
        Implies(And(Not(mt(T, P, c)), kind(T) == OP()), And(
            hm(T, P, c) == Exists([f], And(0 <= f, f < nk(T), hm(kid(T, f), P, c))),
            ForAll([f], Implies(And(0 <= f, f < nk(T), hm(kid(T, f), P, c), ForAll([i], Implies(And(0 <= i, i < f), Not(hm(kid(T, i), P, c))), patterns=[kid(T, i)])), fm(T, P, c) == fm(kid(T, f), P, c)), patterns=[fm(kid(T, f), P, c)]))))
def nomt(L):
    g = L.run.ghost.get('fm')
    if g is None: return []
    T, P, c = g
    return [ForAll([i], Implies(And(0 <= i, i < x), Not(hm(kid(T, i), P, c))), patterns=[kid(T, i)]) for x in counters(L)]
@contract('find_matching', MF, props=['C09'], text='NULL exactly if no subtree matches, otherwise the place of the first matching one (top-down, left to right) and its binding', norm_hooks=[open_ops], **TK)
def find_matching(S):
    slot = S.a[0]; P, c = patof(S.a[1]), S.a[2]; S.req(patok(S.a[1]), 'pattern')
    carve = S.where != 'self' and S.run.e.c.name != 'find_matching'
    p, T = rotree_at(S, slot); S.obj(S.a[3], 'Matching')
    if S.where == 'self': S.assume(U_fm(T, P, c)); S.run.ghost['fm'] = (T, P, c)
    S.inv(nomt); yield
    w = S.obj(S.a[3], 'Matching')
    S.req((S.ret != 0) == hm(T, P, c), 'found exactly if some subtree matches')
    if not S.inh:
        if not S.valid(S.ret == 0):
            S.req(Implies(S.ret != 0, binding(w) == bnd(fm(T, P, c), P, c)), 'binding of the first matching subtree')
            if S.ret.eq(slot): S.req(fm(T, P, c) == T, 'first matching subtree')
            else:
                r = [x for x in S.run.ghost.get('places', []) if x[0].eq(S.ret)]
                S.req(Or([fm(T, P, c) == x[1] for x in r] + [FALSE]), 'first matching subtree')
        return
    S.assume(Implies(S.ret != 0, binding(w) == bnd(fm(T, P, c), P, c)))
    if not carve:
        S.run.ghost['places'] = S.run.ghost.get('places', []) + [(S.ret, fm(T, P, c))]; return
    if not S.branch(S.ret != 0): return
    # the caller owns the tree: it gets the slot of the subtree and the rest of the tree with a hole
    run = S.run
    if S.branch(mt(T, P, c)):
        S.ret = slot; S.assume(fm(T, P, c) == T); run.ghost['bound'] = (p, T); return
    cid = run.find_tree(p); run.close_tree(cid); cid = cid if cid in run.heap else run._closed
    run.detach(cid); run.heap.pop(cid, None)
    S.mode = 'in'
    S.pred('hole', p, [T]); q = S.cell(S.ret, NODEP); S.tree(q, fm(T, P, c)); run.ghost['bound'] = (q, fm(T, P, c))
    run.ghost['hole'] = (S.ret, P, c)
def fold_hole(run, p):
    """the rest of the tree and what stands in its hole are one tree again"""
    p = lin_norm(p); h = run.ghost.get('hole'); cid = run.find_pred('hole', p)
    if h is None or cid is None: return False
    T = run.heap[cid].args[0]; slot, P, c = h
    for sid, o in list(run.heap.items()):
        if isinstance(o, Obj) and o.base.eq(slot):
            k = run.find_tree(lin_norm(o.val))
            if k is None: return False
            X = run.close_tree(k); k = k if k in run.heap else run._closed
            run.detach(k)
            for x in (k, cid, sid): run.heap.pop(x, None)
            run.new_tree(p, plug(T, P, c, X)); S = plug(T, P, c, X)
            run.assume(And(S != TNull, S != TGone, Implies(And(wf(T), wf(X)), wf(S))))
            return True
    return False

# ------------------------------------------------------------ positions, instances
def U_stok(T, t):
    s = stok(T, t)
    return And(s != TNull, s != TGone, kind(s) == kind(T), tok(s) == t, wf(s) == wf(T), Implies(kind(T) == CO(), cval(s) == cval(T)), Implies(kind(T) == VA(), And(nm(s) == nm(T), vid(s) == vid(T))),
        Implies(kind(T) == OP(), And(opp(s) == opp(T), nk(s) == nk(T), ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(s, i) == stok(kid(T, i), t)), patterns=[kid(s, i), stok(kid(T, i), t)]))))
@contract('set_tok_index_for_all', RF, props=['C09'], text='every node of the tree gets the position, nothing else changes', norm_hooks=[open_ops], **TK)
def set_tok_index_for_all(S):
    T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete')
    if S.where == 'self': S.assume(U_stok(T, S.a[1])); S.run.ghost['map'] = T
    S.inv(kidmap(lambda run, t: stok(t, S.a[1]))); yield
    s = stok(T, S.a[1]); S.tree(S.a[0], s, 'tree'); S.req(wf(s), 'tree is complete')
# a binding M: number of trees and trees each variable is bound to
bsz = Function('bsz', Bind, I, I); BL = Function('BL', Bind, I, I, Tree); bok = Function('bok', Bind, I, B)
ps = Function('ps', Tree, Bind, I, I)            # place of an operand among the operands of the instance
LIM = 2**41
def bind_facts(o):
    """M describes the lists of a Matching"""
    M = binding(o); a = o['mapped_nodes'].tree; x = BL(M, i, j)
    return And(ForAll([i], And(bsz(M, i) == Select(a['size'], i), bsz(M, i) >= 0), patterns=[Select(a['size'], i)]),
        ForAll([i, j], Implies(And(bok(M, i), 0 <= j, j < bsz(M, i)), And(x != TNull, x != TGone, wf(x))), patterns=[x]))
def bound_lists(o):
    """the lists of a Matching are readable complete trees"""
    M = binding(o); a = o['mapped_nodes'].tree
    def f(S, n, p):
        p = lin_norm(p)
        if not (z3.is_app_of(p, z3.Z3_OP_SELECT) and p.arg(0).eq(a['nodes'])): return None
        k = p.arg(1); run = S.run; L = S.fresh('TL', z3.ArraySort(I, Tree))
        run.prove(And(bok(M, k), n == bsz(M, k)), S.label('the list of a bound variable'))
        S.assume(ForAll([i], Implies(And(0 <= i, i < n), And(Select(L, i) == BL(M, k, i), Select(L, i) != TNull, Select(L, i) != TGone, wf(Select(L, i)))), patterns=[Select(L, i)]))
        return L
    return f
def width(T, M, x): return If(kind(kid(T, x)) == VA(), bsz(M, vid(kid(T, x))), 1)
def U_inst(T, M, root=False):
    s = inst(T, M); x, y = Ints('x!n y!n'); pr = ps(T, M, x)
    return And(Implies(kind(T) == CO(), s == T), Implies(kind(T) == VA(), Implies(bsz(M, vid(T)) == 1, s == BL(M, vid(T), 0))),
        Implies(kind(T) == OP(), And(s != TNull, s != TGone, kind(s) == OP(), tok(s) == tok(T), opp(s) == opp(T), nk(s) == ps(T, M, nk(T)), ps(T, M, IntVal(0)) == 0,
            ForAll([x], Implies(And(0 <= x, x < nk(T)), ps(T, M, x + 1) == pr + width(T, M, x)), patterns=[pr]),
            ForAll([x], Implies(And(0 <= x, x <= nk(T)), And(pr >= 0, pr < LIM)), patterns=[pr]),
            ForAll([x, y], Implies(And(0 <= x, x < nk(T), pr <= y, y < pr + width(T, M, x)), kid(s, y) == If(kind(kid(T, x)) == VA(), BL(M, vid(kid(T, x)), y - pr), If(kind(kid(T, x)) == OP(), inst(kid(T, x), M), kid(T, x)))), patterns=[z3.MultiPattern(pr, kid(s, y))]))))
def U_vok(T, M):
    return vok(T, M) == And(Implies(kind(T) == VA(), And(0 <= vid(T), vid(T) < S_VARS[0], bok(M, vid(T)), bsz(M, vid(T)) < LIM)),
        Implies(kind(T) == OP(), And(nk(T) < LIM, ForAll([i], Implies(And(0 <= i, i < nk(T)), vok(kid(T, i), M)), patterns=[kid(T, i)]),
            ForAll([i], Implies(And(0 <= i, i < nk(T), kind(kid(T, i)) == VA()), And(0 <= vid(kid(T, i)), vid(kid(T, i)) < S_VARS[0], bok(M, vid(kid(T, i))), bsz(M, vid(kid(T, i))) < LIM)), patterns=[kid(T, i)]))))
S_VARS = [10]
def close_ops(run):
    for cid, c in list(run.heap.items()):
        if isinstance(c, OpenC): run.close_tree(cid)
def spliced(L):
    """operands before the counter are the instance's, those behind are the rest of the original ones"""
    g = L.run.ghost.get('inst'); fs = []
    if g is None: return fs
    T, s, M = g
    for C in [x.T for x in L.run.heap.values() if isinstance(x, TreeC)]:
        fs.append(And(wf(C), kind(C) == OP(), tok(C) == tok(T), opp(C) == opp(T), nk(C) < 2 * LIM))
        for x in counters(L):
            o = nk(T) - nk(C) + x
            fs += [And(0 <= o, o <= nk(T)), x == ps(T, M, o), ForAll([i], Implies(And(0 <= i, i < x), kid(C, i) == kid(s, i)), patterns=[kid(C, i)]),
                   ForAll([i], Implies(And(x <= i, i < nk(C)), kid(C, i) == kid(T, i - x + o)), patterns=[kid(C, i)])]
    return fs
def start(S, o, T):
    M = binding(o); S_VARS[0] = S.const('MAX_MAPPED_VARS') if 'MAX_MAPPED_VARS' in S.run.e.macros else IntVal(10)
    facts(S.run, bind_facts(o), U_inst(T, M), U_vok(T, M)); S.run.ghost['inst'] = (T, inst(T, M), M); S.run.ghost['bound lists'] = bound_lists(o)
@contract('transform_matched_recursive', TF, props=['C09'], text='every variable below the node is replaced by copies of the trees it is bound to, in order; nothing else changes', budget=240, norm_hooks=[close_ops], **TK)
def transform_matched_recursive(S):
    o = S.obj(S.a[0], 'Matching', ro=True); M = binding(o)
    p = S.cell(S.a[1], NODEP); T = S.tree(p); S.req(And(wf(T), kind(T) == OP()), 'complete operator node'); S.req(vok(T, M), 'every variable is bound')
    if S.where == 'self': start(S, o, T)
    S.inv(spliced); yield
    q = S.cell(S.a[1], NODEP); s = inst(T, M); S.tree(q, s, 'instance'); S.req(wf(s), 'tree is complete')
@contract('transform_by_matching', TF, props=['C09'], text='every variable is replaced by copies of the trees it is bound to, in order (at the root by the one tree); nothing else changes', **TK)
def transform_by_matching(S):
    o = S.obj(S.a[0], 'Matching', ro=True); M = binding(o)
    p = S.cell(S.a[1], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete'); S.req(vok(T, M), 'every variable is bound')
    if S.where == 'self':
        start(S, o, T)
        if S.branch(kind(T) == VA()):
            a = o['mapped_nodes'].tree; l = rolist(S, {'size': Select(a['size'], vid(T)), 'nodes': Select(a['nodes'], vid(T))})
            S.assume(ForAll([i], Implies(And(0 <= i, i < l.n), Select(l.L, i) == BL(M, vid(T), i)), patterns=[Select(l.L, i)]))
    elif not S.inh:
        b = S.run.ghost.get('bound'); cid = None if b is None else S.run.find_tree(b[0])
        if cid is None or not (isinstance(S.run.heap[cid], TreeC) and S.run.valid(S.run.heap[cid].T == b[1])):
            S.run.prove(FALSE, S.label('the matched subtree is still there')); raise PathStuck()
    yield
    q = S.cell(S.a[1], NODEP); S.tree(q, inst(T, M), 'instance'); S.req(wf(inst(T, M)), 'tree is complete')

# ------------------------------------------------------------ rules
def applied(T, R, c):
    """tree after one application"""
    P = pat(R); F = fm(T, P, c); X = inst(stok(rhs(R), tok(F)), bnd(F, P, c))
    return If(mt(T, P, c), X, plug(T, P, c, X))
@contract('apply_rule', RF, props=['C09'], text='true exactly if some subtree matches; then the first one is replaced by the instance of the right-hand side, otherwise the tree is untouched',
          norm_hooks=[open_ops], fold_hooks=[fold_node, fold_hole], free_hooks=[free_node])
def apply_rule(S):
    R, c = ruleof(S.a[1]), S.a[2]; S.req(And(ruleok(S.a[1]), S.a[1] > 0), 'rule')
    p = S.cell(S.a[0], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete')
    if S.where == 'self':
        # what a rule in memory is
        S.mode = 'in'; o = S.obj(S.a[1], 'RewriteRule', ro=True); A = S.rotree(o['after']); q = lin_norm(S.a[1] + S.run.prog.layout('RewriteRule')[0]['pattern'][0])
        k = Int('k!w')
        S.assume(And(wf(A), A == rhs(R), patok(q), patof(q) == pat(R), U_fm(T, pat(R), c), ForAll([t_, k], vok(stok(rhs(R), k), bnd(t_, pat(R), c)), patterns=[z3.MultiPattern(stok(rhs(R), k), bnd(t_, pat(R), c))])))
    yield
    b = hm(T, pat(R), c); S.result(b, 'applied exactly if some subtree matches')
    q = S.cell(S.a[0], NODEP)
    if S.inh: S.tree(q, If(b, applied(T, R, c), T)); S.assume(wf(If(b, applied(T, R, c), T))); return
    T2 = S.tree(q)
    if S.branch(b): S.req(T2 == applied(T, R, c), 'the first matching subtree is replaced by the instance of the right-hand side'); S.req(wf(T2), 'tree is complete')
    else: S.req(And(T2 == T, q == p), 'the tree is untouched')

# ------------------------------------------------------------ rule sets
RA = z3.ArraySort(I, Rule)
rad = Function('rad', I, I)                                       # addresses of the rules of the set
fst = Function('fst', Tree, I, I)                                 # number of the first rule that applies (as many as there are rules: none)
step = Function('step', Tree, I, I, Tree)                         # tree after so many applications
POS = ('gv', 'it:pos')
def ap(T, k, c): return hm(T, pat(ruleof(rad(k))), c)
def ax_set(n, c):
    m = Int('m!w'); f = fst(t_, c); s = step(t_, c, m)
    return [ForAll([t_], And(0 <= f, f <= n, Implies(f < n, ap(t_, f, c)), ForAll([m], Implies(And(0 <= m, m < f), Not(ap(t_, m, c))), patterns=[rad(m)])), patterns=[f]),
            ForAll([t_, m], Implies(m == 0, s == t_), patterns=[s]),
            ForAll([m], Implies(And(0 <= m, m < n), And(ruleok(rad(m)), rad(m) > 0, rad(m) < lg.PTRMAX)), patterns=[rad(m)])]
def step_def(T0, c, m, n):
    """definition of one more application"""
    s = step(T0, c, m); k = fst(s, c)
    return Implies(And(m >= 0, k < n), step(T0, c, m + 1) == If(hm(s, pat(ruleof(rad(k))), c), applied(s, ruleof(rad(k)), c), s))
def it_hook(run, f, args, n):
    g = run.ghost.get('iter')
    if g is None or len(args) != 1 or not run.valid(args[0] == g[0]): return None
    pos = run.ghost[POS]
    if f.eq(g[2]):          # next element
        if run.branch(pos < g[1]): run.ghost[POS] = lin_norm(pos + 1); return (rad(pos),)
        return (IntVal(0),)
    if f.eq(g[3]): run.ghost[POS] = IntVal(0); return (None,)
    return None
def ruleset(L):
    g = L.run.ghost.get('ruleset'); fs = []
    if g is None: return fs
    T0, c, n = g; pos = L.run.ghost[POS]; m = Int('m!w')
    ts = [x.T for x in L.run.heap.values() if isinstance(x, TreeC)]
    fs += [pos == 0, And(0 <= pos, pos <= n)]
    for k in sorted(L.plan, key=str):
        if k[0] == 'tree' and k in L.pre0: fs.append(L.cur[k] == L.pre0[k])
    for T in ts: fs.append(wf(T))
    for x in counters(L):
        fs.append(ForAll([m], Implies(And(0 <= m, m < x), fst(step(T0, c, m), c) < n), patterns=[step(T0, c, m)]))
        for T in ts:
            fs.append(T == step(T0, c, x))
    for T in ts: fs.append(ForAll([m], Implies(And(0 <= m, m < pos), Not(ap(T, m, c))), patterns=[rad(m)]))
    return fs
@contract('apply_ruleset_by_iterator', RF, props=['C09'], text='rules are tried in order, from the first again after each success; ends exactly when none applies or the given number is reached; returns the number of applications',
          fnptr=it_hook, norm_hooks=[open_ops], **TK)
def apply_ruleset_by_iterator(S):
    c, cap = S.a[2], S.a[3]; p = S.cell(S.a[0], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete')
    n = S.fresh('rules', I); o = S.obj(S.a[1], 'Iterator')
    if S.where == 'self':
        S.req(And(n >= 0, n < 2**44)); [S.assume(a) for a in ax_set(n, c)]
        S.run.ghost['iter'] = (S.a[1], n, o['get_next'], o['reset']); S.run.ghost[POS] = IntVal(0); S.run.ghost['ruleset'] = (T, c, n)
        m = Int('m!w'); S.assume(ForAll([m], step_def(T, c, m, n), patterns=[step(T, c, m)]))
    S.inv(ruleset); yield
    q = S.cell(S.a[0], NODEP); T2 = S.tree(q); o2 = S.obj(S.a[1], 'Iterator'); S.req(wf(T2), 'tree is complete')
    S.req(And(o2['get_next'] == o['get_next'], o2['reset'] == o['reset']), 'iterator is kept')
    if S.inh: return
    r = S.ret; m = Int('m!w')
    S.req(And(0 <= r, r <= cap), 'at most as many applications as asked for')
    S.req(T2 == step(T, c, r), 'the first rule that applies is applied as often as returned')
    S.req(ForAll([m], Implies(And(0 <= m, m < r), fst(step(T, c, m), c) < n), patterns=[step(T, c, m)]), 'each application was possible')
    S.req(Or(r == cap, fst(step(T, c, r), c) == n), 'ends only when no rule applies or the number is reached')
