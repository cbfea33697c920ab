"""context.c: the list of operators, the four name tries (payload: list node) and the keyword trie always agree."""
from .trie import *
from .trie import trie_out, ext
from .linked_list import links, dll
FILE = 'src/engine/parsing/context.c'
OPS = 40
un = lambda f: Function('unp:Operator.' + f, Blob, I)
O_name, O_id, O_ar, O_prec, O_assoc, O_place = [un(f) for f in ('name', 'id', 'arity', 'precedence', 'assoc', 'placement')]
txt = Function('text', I, Str)            # operator names stay readable and unchanged while they are in a context
men = Function('mention', I, z3.BoolSort()); key = Function('key', Str, z3.BoolSort()); mi, mj = Function('mi', I, z3.BoolSort()), Function('mj', I, z3.BoolSort())     # always true; they only tell the solver which terms matter
i_, l_ = Ints('i!x l!x')
PLACES = range(4)
LNP = PTR(('rec', 'ListNode'))
def ax_ctx(): return ax_map() + [ForAll([q_], key(q_), patterns=[key(q_)]), ForAll([k_], men(k_), patterns=[men(k_)]), ForAll([k_], And(mi(k_), mj(k_)), patterns=[mi(k_)]), ForAll([k_], mj(k_), patterns=[mj(k_)])]
class C: pass
def el(av, j): return {f: z3.simplify(Select(x, j)) for f, x in av.tree.items()}
def name_(x): return txt(O_name(x))
def agree(v):
    """clauses of the invariant"""
    n, A, P, X = v.n, v.A, v.P, v.X; fs = []
    mk = mj if v.S.inh else mi
    fs.append(('placements are valid', fa(i_, 0, n, And(0 <= O_place(Select(X, i_)), O_place(Select(X, i_)) < 4), [Select(X, i_)])))
    for j in PLACES:
        m = v.t[j]; a = pay(v.S, m, q_); b = Select(X, Select(P, a))
        for g in (Select(A, Select(P, a)) == a, 0 <= Select(P, a), Select(P, a) < n, And(a > 0, a + 16 < lg.PTRMAX)):
            fs.append(('a name leads to an operator of the list', ForAll([q_], Implies(And(key(q_), has(m.M, q_)), g), patterns=[key(q_)])))
        fs.append(('the operator has this name and placement', ForAll([q_], Implies(And(key(q_), has(m.M, q_)), And(O_place(b) == j, name_(b) == q_)), patterns=[key(q_)])))
        x = Select(X, i_)
        fs.append(('every operator is found by its name', fa(i_, 0, n, Implies(And(mk(i_), O_place(x) == j), And(has(m.M, name_(x)), pay(v.S, m, name_(x)) == Select(A, i_))), [mk(i_)])))
    fs.append(('keywords are exactly the names', ForAll([q_], has(v.k.M, q_) == Or([has(v.t[j].M, q_) for j in PLACES]), patterns=[has(v.k.M, q_)])))
    fs.append(('keywords are exactly the names', ForAll([q_], Implies(Or([has(v.t[j].M, q_) for j in PLACES]), has(v.k.M, q_)), patterns=[has(v.t[j].M, q_) for j in PLACES])))
    fs.append(('ids are unique', ForAll([i_, l_], Implies(And(mk(i_), mk(l_), 0 <= i_, i_ < l_, l_ < n), O_id(Select(X, i_)) < O_id(Select(X, l_))), patterns=[MultiPattern(mk(i_), mk(l_))])))
    fs.append(('same precedence, same associativity', ForAll([i_, l_], Implies(And(mk(i_), mk(l_), 0 <= i_, i_ < n, 0 <= l_, l_ < n, O_place(Select(X, i_)) == 1, O_place(Select(X, l_)) == 1, O_prec(Select(X, i_)) == O_prec(Select(X, l_))), O_assoc(Select(X, i_)) == O_assoc(Select(X, l_))), patterns=[MultiPattern(mk(i_), mk(l_))])))
    return fs
def ctx(S, p, ro=False, ret=None, full=True, hint=None):
    run = S.run; v = C(); v.S = S
    if ret is not None:
        o = ret
        if S.inh: o['op_list']['elem_size'] = IntVal(OPS)
    else: o = S.obj(p, 'ParsingContext', ro=ro)
    v.o = o; v.glue = o['glue_op']; lst = o['op_list']; es = lst['elem_size']
    off = run.prog.layout('ParsingContext')[0]['op_list'][0]
    key = lin_norm(p + off) if p is not None else None
    if S.inh:
        lst['elem_size'] = IntVal(OPS)
        c = S.seq(key if key is not None else run.fresh('key', I), 'ListNode', IntVal(OPS))
    else:
        S.req(es == OPS, 'the list stores operators')
        c = None
        for cid, x in list(run.heap.items()):
            if isinstance(x, SeqC) and (key is None or x.key.eq(key) or run.valid(x.key == key)):
                c = x
                if not (ro and S.where != 'self'): del run.heap[cid]
                break
        if c is None and key is None: c = S.__class__.seq.__get__(S)  and empty_seq(run)
        if c is None: raise Unsupported('no operator list known')
    v.c = c; v.n, v.A, v.P, v.X = c.n, c.A, c.P, c.tree['$x']
    S.req(links(c, lst, S), 'the list is well formed')
    v.t = []
    for j in PLACES:
        e = el(o['op_tries'], j); S.req(e['elem_size'] == 8, 'tries store list nodes')
        v.t.append(trie_out(S, None, e, ro, None, None, LNP))
        if v.t[-1].X is None: v.t[-1].X = run.fresh('nocells', AI)
    v.k = trie_out(S, None, o['keywords_trie'], ro, None, None, None)
    if hint: hint(v)
    if full:
        for lab, f in agree(v): S.req(f, lab)
    return v
def empty_seq(run):
    return SeqC(IntVal(1), ('rec', 'ListNode'), IntVal(OPS), IntVal(0), run.fresh('A', AI), run.fresh('P', AI), {'next': run.fresh('nx', AI), 'previous': run.fresh('pv', AI), '$x': run.fresh('X', AX)})
def split_place(S, x):
    S.req(And(0 <= x, x < 4), 'a placement')
    for j in range(3):
        if S.branch(x == j): return fix_arg(S, x, j)
    S.assume(x == 3)
    return fix_arg(S, x, 3)
def fix_arg(S, x, j):
    """the argument is this literal from here on"""
    if S.where == 'self':
        for a, y in enumerate(S.a):
            if isinstance(y, dict):
                for f in y:
                    if y[f] is x: y[f] = IntVal(j)
            elif y is x: S.a[a] = IntVal(j)
    return j
def CC(name, **kw): return contract(name, FILE, props=['C10'], axioms=lambda: ax_ctx(), views=['Operator'], **kw)
def same_ctx(S, w, v):
    k = i_
    S.req(w.n == v.n, 'same operators')
    S.req(fa(k, 0, v.n, And(Select(w.A, k) == Select(v.A, k), Select(w.X, k) == Select(v.X, k)), [Select(w.A, k)]), 'same operators')
    S.req(fa(k, 0, v.n, And(Select(w.A, k) == Select(v.A, k), Select(w.X, k) == Select(v.X, k)), [Select(w.X, k)]), 'same operators')
    for j in PLACES: ext(S, w.t[j].M, v.t[j].M, 'same names')
    ext(S, w.k.M, v.k.M, 'same keywords')
    S.req(w.glue == v.glue, 'same glue operator')

# ---- what users of a context see: a table of operators; every operator in it is what some constructor built
wfop = Function('wfop', I, z3.BoolSort())
lkop = Function('lookup', I, Str, I, I)            # version of the table, name, placement
cadd = Function('cadd', I, Str, I, I, I); cdel = Function('cdel', I, Str, I, I)     # table with an operator more or less
clash_ = Function('clash', I, I, I, z3.BoolSort())      # an infix operator of this precedence has the other associativity
v_, p_, o_, p2_ = Ints('v!x p!x o!x p2!x'); s2_ = Const('s2!x', Str)
def ax_table():
    return [ForAll([v_, q_, p_, o_, s2_, p2_], lkop(cadd(v_, q_, p_, o_), s2_, p2_) == If(And(s2_ == q_, p2_ == p_), o_, lkop(v_, s2_, p2_)), patterns=[lkop(cadd(v_, q_, p_, o_), s2_, p2_)]),
            ForAll([v_, q_, p_, s2_, p2_], lkop(cdel(v_, q_, p_), s2_, p2_) == If(And(s2_ == q_, p2_ == p_), 0, lkop(v_, s2_, p2_)), patterns=[lkop(cdel(v_, q_, p_), s2_, p2_)]),
            ForAll([v_, q_, p_, o_], Implies(lkop(v_, q_, p_) == 0, cdel(cadd(v_, q_, p_, o_), q_, p_) == v_), patterns=[cdel(cadd(v_, q_, p_, o_), q_, p_)])]
def client(S): return S.where != 'self' and S.run.e.c.file != FILE
def add_client(S):
    p, op = S.a[0], S.a[1]; s = S.str(op['name']); pl = op['placement']; S.req(And(0 <= pl, pl < 4), 'a placement'); o, ver = usectx(S, p, ro=False)
    INF, FUN = S.const('OP_PLACE_INFIX'), S.const('OP_PLACE_FUNCTION')
    S.req(And(Implies(pl == FUN, And(op['precedence'] == 255, op['assoc'] == S.const('OP_ASSOC_LEFT'))), Implies(pl == INF, op['arity'] == 2), Implies(And(pl != FUN, pl != INF), op['arity'] == 1)), 'an operator as the constructors build it')
    yield
    fail = Or(lkop(ver, s, pl) != 0, And(pl == INF, clash_(ver, op['precedence'], op['assoc'])))
    S.obj(p, 'ParsingContext', dict(o)); r = S.ret
    S.assume((r == 0) == fail); S.assume(And(r >= 0, r < lg.PTRMAX, Implies(r != 0, And(wfop(r), lg.validop(r), lg.opplace(r) == pl, lg.oparity(r) == op['arity'], lg.opname(r) == op['name']))))
    S.pred('context', p, [ver if S.branch(fail) else cadd(ver, s, pl, r)])
def del_client(S):
    p, nm_, pl = S.a[0], S.a[1], S.a[2]; s = S.str(nm_); S.req(And(0 <= pl, pl < 4), 'a placement'); o, ver = usectx(S, p, ro=False)
    yield
    found = lkop(ver, s, pl) != 0
    S.obj(p, 'ParsingContext', dict(o)); S.result(found, 'true exactly if it existed'); S.pred('context', p, [cdel(ver, s, pl) if S.branch(found) else ver])
def usectx(S, p, ro=True):
    o = S.obj(p, 'ParsingContext', ro=ro); ver = S.pred('context', p, sorts=(I,), ro=ro)[0]
    return o, ver
@CC('ctx_lookup_op', text='the operator of this name and placement, NULL exactly if there is none')
def ctx_lookup_op(S):
    p, nm_, pl = S.a[0], S.a[1], S.a[2]
    if S.branch(Or(p == 0, nm_ == 0)): yield; S.result(IntVal(0), 'NULL for invalid arguments'); return
    if S.where != 'self' and S.run.e.c.file != FILE:
        s = S.str(nm_); S.req(And(0 <= pl, pl < 4), 'a placement'); o, ver = usectx(S, p)
        yield
        r = lkop(ver, s, pl); S.result(r, 'the operator found by this name')
        S.assume(And(r >= 0, Implies(r != 0, And(wfop(r), lg.opplace(r) == pl)))); S.run.e.notes.add('operators found in a context are complete as built by op_get_* (their records are never changed), with the placement asked for')
        return
    s = S.str(nm_); S.assume(key(s)); j = split_place(S, pl)
    v = ctx(S, p, ro=True, full=S.inh)
    yield
    m = v.t[j]
    if S.where == 'self':
        w = ctx(S, p, ro=True); same_ctx(S, w, v)
    S.result(If(has(m.M, s), pay(v.S, m, s) + 16, IntVal(0)), 'the operator found by this name')
    i = Select(v.P, pay(v.S, m, s)); b = Select(v.X, i)
    S.req(Implies(has(m.M, s), And(0 <= i, i < v.n, O_place(b) == j, name_(b) == s)), 'it has this name and placement')
    S.req(Implies(Not(has(m.M, s)), fa(i_, 0, v.n, Implies(mi(i_), Not(And(O_place(Select(v.X, i_)) == j, name_(Select(v.X, i_)) == s))), [mi(i_)])), 'nothing found: there is no such operator')

@CC('ctx_set_glue_op', text='sets the glue operator unless it cannot be binary')
def ctx_set_glue_op(S):
    p, op = S.a[0], S.a[1]
    if S.branch(p == 0): yield; S.result(BoolVal(False), 'false for NULL'); return
    o = S.obj(p, 'ParsingContext'); S.req(Or(op == 0, lg.validop(op)), 'operator')
    o0 = dict(o)
    yield
    ok = Or(op == 0, lg.oparity(op) == 2, lg.oparity(op) == 2**64 - 1)
    w = S.obj(p, 'ParsingContext')
    S.result(ok, 'true exactly for operators that can be binary')
    S.req(w['glue_op'] == If(ok, op, o0['glue_op']), 'glue operator')
    for f in ('op_list', 'op_tries', 'keywords_trie'): S.req(S.run.veq(w[f], o0[f]), 'nothing else changes')

@CC('ctx_create', text='empty context: no operator, no keyword, no glue operator', budget=240)
def ctx_create(S):
    yield
    r = S.ret
    v = ctx(S, None, ret=r)
    S.req(And(v.n == 0, v.glue == 0), 'no operators')
    for j in PLACES: ext(S, v.t[j].M, memp, 'no names')
    ext(S, v.k.M, memp, 'no keywords')

@CC('ctx_add_op', text='adds exactly this operator under its name unless name and placement are taken or the associativity clashes; nothing changes otherwise', budget=300)
def ctx_add_op(S):
    p, op = S.a[0], S.a[1]
    if client(S): yield from add_client(S); return
    if S.branch(p == 0): yield; S.result(IntVal(0), 'NULL for invalid arguments'); return
    s = S.str(op['name']); S.assume(s == txt(op['name'])); S.assume(key(s)); j = split_place(S, op['placement'])
    v = ctx(S, p); S.req(v.n < 2**43, 'number of operators'); k = i_
    S.req(Implies(v.n > 0, O_id(Select(v.X, v.n - 1)) < 2**64 - 1), 'ids do not overflow')
    op0 = dict(op)
    clash = lambda m: fa(k, 0, m, Not(And(O_place(Select(v.X, k)) == 1, O_prec(Select(v.X, k)) == op0['precedence'], O_assoc(Select(v.X, k)) != op0['assoc'])), [Select(v.X, k)])
    def walk_(L):
        cs = [L.cur[q] for q in L.vars if q in L.plan and L.cur[q] is not None and not z3.is_bool(L.cur[q]) and L.cur[q].sort() == I]; fs = []
        for x in cs:
            ix = Select(v.P, x)
            fs += [Or(x == 0, And(0 <= ix, ix < v.n, Select(v.A, ix) == x)), men(Select(v.A, ix + 1)), If(x == 0, clash(v.n), clash(ix)), Implies(x == 0, clash(v.n)), Implies(x != 0, clash(ix))]
        return fs
    S.inv(walk_)
    yield
    taken = has(v.t[j].M, s)
    nok = Or(taken, Not(clash(v.n))) if j == 1 else taken
    if S.where == 'self':
        fail = S.branch(S.ret == 0)
        if fail:
            S.req(nok, 'NULL only for a taken name or an associativity clash')
        else: S.req(Not(taken), 'the name was free')
    else:
        fail = S.branch(nok)
        if fail: S.result(IntVal(0), 'NULL')
    def hint(w):
        if S.inh or fail: return
        S.req(has(w.t[j].M, s), 'the name is contained'); S.assume(has(w.t[j].M, s)); S.assume(men(Select(w.A, v.n))); S.assume(mj(v.n - 1))
        for q in PLACES:
            ix = Select(v.P, pay(v.S, v.t[q], q_))
            S.assume(ForAll([q_], men(Select(w.A, ix)), patterns=[key(q_)]))
    w = ctx(S, p, hint=hint)
    if fail: same_ctx(S, w, v); return
    if j == 1: S.req(clash(v.n), 'no associativity clash')
    n = v.n; b = Select(w.X, n)
    S.result(lin_norm(Select(w.A, n) + 16), 'the new operator')
    S.req(w.n == n + 1, 'one operator more')
    S.req(fa(k, 0, n, And(Select(w.A, k) == Select(v.A, k), Select(w.X, k) == Select(v.X, k)), [Select(w.X, k)]), 'other operators stay')
    for f, g in (('name', O_name), ('arity', O_ar), ('precedence', O_prec), ('assoc', O_assoc), ('placement', O_place)): S.req(g(b) == op0[f], 'the operator is stored: ' + f)
    S.req(O_id(b) == If(n == 0, 0, O_id(Select(v.X, n - 1)) + 1), 'new id')
    for q in PLACES: ext(S, w.t[q].M, madd(v.t[q].M, s) if q == j else v.t[q].M, 'exactly this name is new')
    ext(S, w.k.M, madd(v.k.M, s), 'the name is a keyword')
    S.req(w.glue == v.glue, 'same glue operator')

@CC('ctx_delete_op', text='exactly this operator is removed; its name stays a keyword exactly while another operator has it', budget=300)
def ctx_delete_op(S):
    p, nm_, pl = S.a[0], S.a[1], S.a[2]
    if client(S): yield from del_client(S); return
    s = S.str(nm_); S.assume(key(s)); j = split_place(S, pl); v = ctx(S, p); k = i_
    yield
    found = has(v.t[j].M, s)
    S.result(found, 'true exactly if it existed')
    ok = S.branch(found)
    def hint(w):
        if S.inh or z3.is_false(z3.simplify(BoolVal(ok))): return
        S.req(Not(has(w.t[j].M, s)), 'the name is gone'); S.assume(Not(has(w.t[j].M, s))); S.assume(ForAll([i_], mj(i_ + 1), patterns=[mi(i_)]))
        for q in PLACES:
            ix = Select(v.P, pay(v.S, v.t[q], q_))
            S.assume(ForAll([q_], And([men(t) for t in (Select(w.A, ix), Select(w.A, ix - 1))]), patterns=[key(q_)]))
    w = ctx(S, p, hint=hint)
    if not ok: same_ctx(S, w, v); return
    i = Select(v.P, pay(v.S, v.t[j], s))
    S.req(w.n == v.n - 1, 'one operator less')
    S.req(fa(k, 0, w.n, And(Select(w.A, k) == Select(v.A, If(k < i, k, k + 1)), Select(w.X, k) == Select(v.X, If(k < i, k, k + 1))), [Select(w.X, k)]), 'other operators stay in order')
    for q in PLACES: ext(S, w.t[q].M, mdel(v.t[q].M, s) if q == j else v.t[q].M, 'exactly this name is gone')
    still = Or([has(v.t[q].M, s) for q in PLACES if q != j])
    S.req(ForAll([q_], has(w.k.M, q_) == And(has(v.k.M, q_), Or(q_ != s, still)), patterns=[has(w.k.M, q_)]), 'the name stays a keyword exactly while it is used')
    S.req(w.glue == v.glue, 'same glue operator')

@CC('ctx_destroy', text='everything is released')
def ctx_destroy(S):
    v = ctx(S, S.a[0]); yield
    S.obj(S.a[0], 'ParsingContext')
