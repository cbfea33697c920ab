"""operator.c, node.c, tree_util.c: trees as inductive values; recursive spec functions with definitional axioms unfolded at the root"""
from .base import *
NF = 'src/engine/tree/node.c'; OF = 'src/engine/tree/operator.c'; FILE = 'src/engine/tree/tree_util.c'
i, j = Ints('i!t j!t'); k = Int('k!t')
NODEP = PTR(('rec', 'Node'))
kind, tok, opp, nk, kid, cval, vid, nm, wf, TNull = lg.kind, lg.tok, lg.opp, lg.nk, lg.kid, lg.cval, lg.vid, lg.nm, lg.wf, lg.TNull
def OP(): return IntVal(lg.NT['OP'])
def CO(): return IntVal(lg.NT['CONST'])
def VA(): return IntVal(lg.NT['VAR'])
def facts(run, *fs):
    for f in fs: run.assume(f)

# ------------------------------------------------------------ folding fresh allocations into trees
def noff(run, r, f): return run.prog.layout(r)[0][f][0]
def fold_node(run, p):
    """explicit node records at p (fresh allocation) become an owned tree"""
    p = lin_norm(p)
    for cid, c in list(run.heap.items()):
        if not (isinstance(c, Obj) and c.T[0] == 'rec' and c.T[1] in ('ConstantNode', 'VariableNode', 'OperatorNode') and c.origin == 'heap' and c.base.eq(p)): continue
        tk = run.find_tok(p)
        if tk is None: return False
        T = run.fresh('T', Tree); v = c.val; b = v['base']
        if c.T[1] == 'ConstantNode':
            run.prove(b['type'] == CO(), 'node kind fits its record')
            run.assume(And(kind(T) == CO(), cval(T) == v['const_value'], wf(T)))
            rest = []
        elif c.T[1] == 'VariableNode':
            run.prove(b['type'] == VA(), 'node kind fits its record')
            sp = lin_norm(p + noff(run, 'VariableNode', 'var_name'))
            sv = run.string_at(sp)
            run.assume(And(kind(T) == VA(), nm(T) == sv, vid(T) == v['id'], wf(T)))
            rest = [x for x, o in run.heap.items() if isinstance(o, (StrC, Blk)) and o.base.eq(sp)]
        else:
            run.prove(b['type'] == OP(), 'node kind fits its record'); n = v['num_children']
            run.prove(lg.validop(v['op']), 'operator pointer is valid')
            cp = lin_norm(p + noff(run, 'OperatorNode', 'children'))
            rest = [x for x, o in run.heap.items() if isinstance(o, (Blk, Raw)) and o.base.eq(cp)]
            if not run.valid(n == 0):
                if not rest: return False
                bk = run.heap[rest[0]]
                if isinstance(bk, Raw): run.prove(n == 0, 'operand slots are initialised')
                else:
                    run.prove(n <= bk.n, 'operand slots within the allocation')
                    run.prove(ForAll([i], Implies(And(0 <= i, i < n), Select(bk.tree, i) == 0), patterns=[Select(bk.tree, i)]), 'operand slots are empty')
            run.assume(And(kind(T) == OP(), opp(T) == v['op'], nk(T) == n, Implies(n == 0, wf(T))))
            run.assume(ForAll([i], Implies(And(0 <= i, i < n), kid(T, i) == TNull), patterns=[kid(T, i)]))
        run.assume(And(tok(T) == b['token_index'], T != TNull, T != TGone))
        del run.heap[cid], run.heap[tk]
        for x in rest: del run.heap[x]
        run.new_tree(p, T)
        return True
    return False
def free_node(run, p):
    """free() of a node record: all operands must be gone already"""
    cid = run.find_tree(p)
    if cid is None: return False
    c = run.heap[cid]
    if isinstance(c, TreeC):
        run.prove(Implies(kind(c.T) == OP(), ForAll([i], Implies(And(0 <= i, i < nk(c.T)), kid(c.T, i) == TNull), patterns=[kid(c.T, i)])), 'operands of a freed node are freed or moved before')
        run.detach(cid)
    else:
        run.settle(c)
        run.prove(ForAll([i], Implies(And(0 <= i, i < c.n), Or(Select(c.KT, i) == TNull, Select(c.KT, i) == TGone)), patterns=[Select(c.KT, i)]), 'operands of a freed node are freed or moved before')
        run.detach(cid)
    run.heap.pop(cid, None)
    return True
TK = dict(fold_hooks=[fold_node], free_hooks=[free_node])
def open_ops(run):
    for cid, c in list(run.heap.items()):
        if isinstance(c, TreeC) and run.valid(kind(c.T) == OP(), 500): run.open_tree(cid)
def opens(L):
    return [(cid, L.run.heap[cid]) for cid in sorted(L.pre.heap) if isinstance(L.run.heap.get(cid), OpenC)]
def counters(L): return [x for x, x0 in L.ints]

# ------------------------------------------------------------ operator.c
def opctor(name, text, f):
    @contract(name, OF, props=['C02', 'C03', 'C08', 'C10'], text=text)
    def g(S):
        yield
        S.result(f(S, dict(name=S.a[0], id=IntVal(0))), 'the described operator')
C_ = lambda S, n: S.const(n)
opctor('op_get_function', 'function operator of given arity', lambda S, d: dict(d, arity=S.a[1], precedence=IntVal(255), placement=C_(S, 'OP_PLACE_FUNCTION'), assoc=C_(S, 'OP_ASSOC_LEFT')))
opctor('op_get_constant', 'function operator without operands', lambda S, d: dict(d, arity=IntVal(0), precedence=IntVal(255), placement=C_(S, 'OP_PLACE_FUNCTION'), assoc=C_(S, 'OP_ASSOC_LEFT')))
opctor('op_get_prefix', 'prefix operator', lambda S, d: dict(d, arity=IntVal(1), precedence=S.a[1], placement=C_(S, 'OP_PLACE_PREFIX'), assoc=C_(S, 'OP_ASSOC_LEFT')))
opctor('op_get_infix', 'infix operator', lambda S, d: dict(d, arity=IntVal(2), precedence=S.a[1], placement=C_(S, 'OP_PLACE_INFIX'), assoc=S.a[2]))
opctor('op_get_postfix', 'postfix operator', lambda S, d: dict(d, arity=IntVal(1), precedence=S.a[1], placement=C_(S, 'OP_PLACE_POSTFIX'), assoc=C_(S, 'OP_ASSOC_LEFT')))

# ------------------------------------------------------------ node.c: construction and release
TP = ['C02', 'C05', 'C06', 'C07', 'C09']
@contract('malloc_constant_node', NF, props=TP, text='fresh constant node', **TK)
def malloc_constant_node(S):
    yield
    T = S.tree(S.ret)
    S.req(And(kind(T) == CO(), cval(T) == S.a[0], tok(T) == S.a[1], wf(T)), 'constant node with value and position')
@contract('malloc_variable_node', NF, props=TP, text='fresh variable node with a copy of the name', **TK)
def malloc_variable_node(S):
    sv = S.str(S.a[0]); yield
    T = S.tree(S.ret)
    S.req(And(kind(T) == VA(), nm(T) == sv, vid(T) == S.a[1], tok(T) == S.a[2], wf(T)), 'variable node with name, id and position')
def empties(L):
    fs = []
    for cid, c in L.run.heap.items():
        if isinstance(c, Blk) and c.tree.sort() == z3.ArraySort(I, I):
            for x in counters(L): fs.append(ForAll([i], Implies(And(0 <= i, i < x), Select(c.tree, i) == 0), patterns=[Select(c.tree, i)]))
    return fs
@contract('malloc_operator_node', NF, props=TP, text='fresh operator node with empty operand slots', **TK)
def malloc_operator_node(S):
    S.req(lg.validop(S.a[0]), 'operator pointer is valid'); S.req(S.a[1] < 2**44, 'number of operands is sensible'); S.inv(empties); yield
    T = S.tree(S.ret)
    S.req(And(kind(T) == OP(), opp(T) == S.a[0], nk(T) == S.a[1], tok(T) == S.a[2], Implies(S.a[1] == 0, wf(T))), 'operator node with operator, number of operands and position')
    S.req(ForAll([i], Implies(And(0 <= i, i < S.a[1]), kid(T, i) == TNull), patterns=[kid(T, i)]), 'operand slots are empty')
def freed(L):
    fs = []
    for cid, c in opens(L):
        K0 = L.pre0[('KT', cid)]
        for x in counters(L):
            fs.append(ForAll([i], Implies(And(0 <= i, i < x), Or(Select(c.KT, i) == TNull, Select(c.KT, i) == TGone)), patterns=[Select(c.KT, i)]))
            fs.append(ForAll([i], Implies(And(x <= i, i < c.n), Select(c.KT, i) == Select(K0, i)), patterns=[Select(c.KT, i)]))
    return fs
@contract('free_tree', NF, props=TP, text='releases every node of the tree once and nothing else', norm_hooks=[open_ops], **TK)
def free_tree(S):
    if S.branch(S.a[0] != 0): S.tree(S.a[0])
    S.inv(freed)
    yield

# ------------------------------------------------------------ tree_util.c: copy, equality, counting
def built(L):
    """operands copied so far equal the source's"""
    fs = []; srcs = [c.snap for c in L.run.heap.values() if isinstance(c, SnapC)]
    T0 = L.run.ghost.get('src')
    for cid, c in opens(L):
        for x in counters(L):
            if T0 is not None: fs.append(ForAll([i], Implies(And(0 <= i, i < x), Select(c.KT, i) == kid(T0, i)), patterns=[Select(c.KT, i), kid(T0, i)]))
            fs.append(ForAll([i], Implies(And(0 <= i, i < c.n), And((Select(c.KT, i) == TNull) == (Select(c.PA, i) == 0), Select(c.KT, i) != TGone)), patterns=[Select(c.KT, i)]))
            fs.append(ForAll([i], Implies(And(0 <= i, i < c.n), And(Select(c.PA, i) >= 0)), patterns=[Select(c.PA, i)]))
            fs.append(ForAll([i], Implies(And(x <= i, i < c.n), And(Select(c.KT, i) == TNull, Select(c.PA, i) == 0)), patterns=[Select(c.KT, i), Select(c.PA, i)]))
    return fs
@contract('tree_copy', FILE, props=TP, text='a separate tree equal in every node; the original is unchanged', norm_hooks=[open_ops], **TK)
def tree_copy(S):
    if S.branch(S.a[0] == 0):
        yield; S.result(IntVal(0), 'no tree'); return
    T = S.rotree(S.a[0])
    if S.where == 'self': S.run.ghost['src'] = T
    S.inv(built); yield
    S.tree(S.ret, T, 'copy')

teq = Function('teq', Tree, Tree, z3.BoolSort())
def U_teq(a, b):
    return teq(a, b) == And(a != TNull, b != TNull, kind(a) == kind(b),
        Implies(kind(a) == CO(), z3.fpEQ(cval(a), cval(b))),
        Implies(kind(a) == VA(), And(nm(a) == nm(b), vid(a) == vid(b))),
        Implies(kind(a) == OP(), And(lg.opid(opp(a)) == lg.opid(opp(b)), nk(a) == nk(b),
            ForAll([i], Implies(And(0 <= i, i < nk(a)), teq(kid(a, i), kid(b, i))), patterns=[teq(kid(a, i), kid(b, i))]))))
def eqpfx(L):
    fs = []; p = L.run.ghost.get('teq')
    if p is None: return fs
    for x in counters(L): fs.append(ForAll([i], Implies(And(0 <= i, i < x), teq(kid(p[0], i), kid(p[1], i))), patterns=[teq(kid(p[0], i), kid(p[1], i))]))
    return fs
@contract('tree_equals', FILE, props=['C05', 'C09'], text='true exactly for trees of the same shape with equal constants, variables and operators')
def tree_equals(S):
    if S.branch(Or(S.a[0] == 0, S.a[1] == 0)):
        yield; S.result(FALSE, 'a missing tree equals nothing'); return
    a = S.rotree(S.a[0]); b = S.rotree(S.a[1]); S.req(And(wf(a), wf(b)), 'trees are complete')
    if S.where == 'self': S.assume(U_teq(a, b)); S.run.ghost['teq'] = (a, b)
    S.inv(eqpfx); yield
    S.result(teq(a, b), 'equality of the trees')

# sums over operands
def sumfn(name, *extra):
    """f(T, extra) and its partial sum over the first n operands"""
    f = Function(name, Tree, *extra, I); p = Function(name + 'p', Tree, *extra, I, I)
    return f, p
BIGN = 2**44
nvars, nvarsp = sumfn('nvars')
def U_sum(f, p, T, ex=(), leaf=None):
    """definition at the root T: leaf(T) for leaves, sum of the operands otherwise"""
    return And(Implies(kind(T) == CO(), f(T, *ex) == 0), Implies(kind(T) == VA(), f(T, *ex) == leaf), Implies(kind(T) == OP(), f(T, *ex) == p(T, *ex, nk(T))),
        p(T, *ex, IntVal(0)) == 0, ForAll([i], Implies(And(0 <= i, i < nk(T)), p(T, *ex, i + 1) == p(T, *ex, i) + f(kid(T, i), *ex)), patterns=[f(kid(T, i), *ex)]),
        ForAll([i], Implies(And(0 <= i, i <= nk(T)), And(p(T, *ex, i) >= 0, p(T, *ex, i) < BIGN)), patterns=[p(T, *ex, i)]))
def sum_ax(f, ex=()):
    t = Const('t!s', Tree); xs = [Const('x!s%d' % n, s) for n, s in enumerate(ex)]
    return ForAll([t] + xs, And(f(t, *xs) >= 0, f(t, *xs) < BIGN), patterns=[f(t, *xs)])
def sumpfx(key):
    def g(L):
        fs = []; p = L.run.ghost.get(key)
        if p is None: return fs
        P, T, ex = p; cs = counters(L)
        for m, x in enumerate(cs):
            for n, y in enumerate(cs):
                if m != n: fs.append(Implies(And(0 <= y, y <= nk(T)), x == P(T, *ex, y)))
        return fs
    return g
@contract('count_all_variable_nodes', FILE, props=['C05', 'C07'], text='number of variable nodes', axioms=lambda: [sum_ax(nvars)])
def count_all_variable_nodes(S):
    if S.branch(S.a[0] == 0):
        yield; S.result(IntVal(0), 'no tree, no variables'); return
    T = S.rotree(S.a[0]); S.req(wf(T), 'tree is complete')
    if S.where == 'self': S.assume(U_sum(nvars, nvarsp, T, (), IntVal(1))); S.run.ghost['sum'] = (nvarsp, T, ())
    S.inv(sumpfx('sum')); yield
    S.req(nvars(T) >= 0)
    S.result(nvars(T), 'number of variable nodes')

# ------------------------------------------------------------ tree_util.c: replacement
@contract('tree_replace', FILE, props=['C06', 'C07', 'C09'], text='the old tree is freed, the new one takes its place', **TK)
def tree_replace(S):
    p = S.cell(S.a[0], NODEP)
    if S.branch(p != 0): S.tree(p)
    yield
    S.cell(S.a[0], NODEP, val=S.a[1])

subst = Function('subst', Tree, Str, Tree, Tree)
def U_subst(T, n, R):
    s = subst(T, n, R)
    return And(Implies(kind(T) == CO(), s == T), Implies(kind(T) == VA(), s == If(nm(T) == n, R, T)),
        Implies(kind(T) == OP(), And(s != TNull, kind(s) == OP(), tok(s) == tok(T), opp(s) == opp(T), nk(s) == nk(T),
            ForAll([i], Implies(And(0 <= i, i < nk(T)), kid(s, i) == subst(kid(T, i), n, R)), patterns=[kid(s, i), subst(kid(T, i), n, R)]))))
occ, occp = sumfn('occ', Str)
def kidmap(f):
    """operands before the counter are mapped by f, the others are untouched"""
    def g(L):
        fs = []; T0 = L.run.ghost.get('map')
        if T0 is None: return fs
        for cid, c in opens(L):
            K0, P0 = L.pre0[('KT', cid)], L.pre0[('PA', cid)]
            for x in counters(L):
                fs.append(ForAll([i], Implies(And(0 <= i, i < x), Select(c.KT, i) == f(L.run, kid(T0, i))), patterns=[Select(c.KT, i)]))
                fs.append(ForAll([i], Implies(And(0 <= i, i < x), And(wf(Select(c.KT, i)), Select(c.KT, i) != TGone, Select(c.KT, i) != TNull)), patterns=[Select(c.KT, i)]))
                fs.append(ForAll([i], Implies(And(0 <= i, i < x), And(Select(c.PA, i) > 0)), patterns=[Select(c.PA, i)]))
                fs.append(ForAll([i], Implies(And(x <= i, i < c.n), And(Select(c.KT, i) == Select(K0, i))), patterns=[Select(c.KT, i)]))
                fs.append(ForAll([i], Implies(And(x <= i, i < c.n), And(Select(c.PA, i) == Select(P0, i))), patterns=[Select(c.PA, i)]))
        return fs
    return g
@contract('replace_variable_nodes', FILE, props=['C06'], text='every occurrence of the name is replaced by a copy, nothing else changes; returns the number of occurrences',
          axioms=lambda: [sum_ax(occ, (Str,))], norm_hooks=[open_ops], **TK)
def replace_variable_nodes(S):
    R = S.rotree(S.a[1]); S.req(wf(R), 'replacement is complete')
    n = S.str(S.a[2])
    p = S.cell(S.a[0], NODEP); T = S.tree(p); S.req(wf(T), 'tree is complete')
    if S.where == 'self':
        facts(S.run, U_subst(T, n, R), U_sum(occ, occp, T, (n,), If(nm(T) == n, IntVal(1), IntVal(0))))
        S.run.ghost['map'] = T; S.run.ghost['sum'] = (occp, T, (n,))
    S.inv(kidmap(lambda run, t: subst(t, n, R))); S.inv(sumpfx('sum'))
    yield
    q = S.cell(S.a[0], NODEP)
    T2 = S.tree(q, subst(T, n, R), 'tree'); S.req(wf(subst(T, n, R)), 'tree is complete')
    S.result(occ(T, n), 'number of occurrences')
