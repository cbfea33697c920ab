"""parser.c: the shunting-yard algorithm over two stacks; number of waiting operands, ownership of nodes, reduction by precedence."""
from .tree2 import *
from .tree2 import fidx_ax
from .tokenizer import owned, unchanged, unptr, AB
from .vector import same_prefix
from .context import split_place, wfop, usectx
FILE = 'src/engine/parsing/parser.c'
DYN = 2**64 - 1
NT_ = 2**42       # number of tokens: address space
BIG = 2**44 - 8   # nodes and operators on the stacks: at most two for every token
un = lambda f: Function('unp:OpData.' + f, Blob, I)
D_op, D_ar, D_tok, D_glue = [un(f) for f in ('op', 'arity', 'token', 'is_glue')]
FUN, INF, PRE, POST = [('OP_PLACE_FUNCTION'), ('OP_PLACE_INFIX'), ('OP_PLACE_PREFIX'), ('OP_PLACE_POSTFIX')]
LIM = Int('ntoks!p')     # number of tokens of the text
b_ = Const('b!p', Blob); k, a_ = Ints('k!p a!p'); p = Int('p!p'); A_, B_ = Const('A!p', AB), Const('B!p', AB); t_ = Const('t!p', Tree)
place, prec, assoc, arity = lg.opplace, lg.opprec, lg.opassoc, lg.oparity
PL = {}
def pl(S, n): return S.const(n)
# ---- shape of operators (what op_get_* builds), of stacked operators, of nodes
ari = Function('ari', Tree, z3.BoolSort())        # every operator node has as many operands as its operator requires
need = Function('need', AB, I, I)                 # operands that the first k stacked operators wait for, beyond their last one
nwit = Function('needwit', AB, AB, I, I)
def isfun(b): return And(D_op(b) != 0, place(D_op(b)) == PL[FUN], D_glue(b) == 0)
def cneed(b): return If(D_op(b) == 0, IntVal(0), If(isfun(b), D_ar(b), If(D_ar(b) >= 1, D_ar(b) - 1, IntVal(0))))
def ax_parse(prog):
    for n in (FUN, INF, PRE, POST): PL[n] = IntVal(prog.enumconst[n])
    LEFT = IntVal(prog.enumconst['OP_ASSOC_LEFT'])
    return [LIM >= 0, LIM < NT_, ForAll([p], Implies(wfop(p), And(lg.validop(p), p > 0, Implies(place(p) == PL[FUN], And(prec(p) == 255, assoc(p) == LEFT)), Implies(place(p) == PL[INF], arity(p) == 2),
                Implies(Or(place(p) == PL[PRE], place(p) == PL[POST]), arity(p) == 1), Or(prec(p) < 255, assoc(p) == LEFT))), patterns=[wfop(p)]),
        ForAll([A_], need(A_, 0) == 0, patterns=[need(A_, 0)]),
        ForAll([A_, k], Implies(k >= 0, And(need(A_, k) >= 0, need(A_, k) + cneed(Select(A_, k)) == need(A_, k + 1))), patterns=[z3.MultiPattern(need(A_, k), Select(A_, k))]),
        ForAll([A_, k, a_, b_], Implies(k <= a_, need(Store(A_, a_, b_), k) == need(A_, k)), patterns=[need(Store(A_, a_, b_), k)]),
        ForAll([b_, p], redu(b_, p) == redu_def(b_, p, LEFT), patterns=[redu(b_, p)]),
        ForAll([t_], Implies(ari(t_), And(Implies(kind(t_) == OP(), Or(arity(opp(t_)) == DYN, arity(opp(t_)) == nk(t_))))), patterns=[ari(t_)]),
        ForAll([t_], Implies(And(Or(kind(t_) == CO(), kind(t_) == VA())), ari(t_)), patterns=[ari(t_)]),
    ]
def def_ari(T):
    """least predicate: introduce it where all operands have it"""
    return Implies(And(kind(T) == OP(), Or(arity(opp(T)) == DYN, arity(opp(T)) == nk(T)), ForAll([k], Implies(And(0 <= k, k < nk(T)), ari(kid(T, k))), patterns=[kid(T, k)])), ari(T))
class P: pass
def stk(S, v, es, same=None):
    """a vector inside of the state: buffer and contents"""
    if same is not None:
        if S.inh: v['buffer'], v['buffer_size'] = same.buf, same.bs
        else: S.req(And(v['buffer'] == same.buf, v['buffer_size'] == same.bs), 'buffer stays')
    x = V(); x.es, x.count, x.bs, x.buf = v['elem_size'], v['elem_count'], v['buffer_size'], v['buffer']
    if S.inh: v['elem_size'] = x.es = IntVal(es)
    S.req(And(x.es == es, x.count >= 0, x.count <= x.bs, x.bs < 2**60, x.buf != 0), 'vector is well formed')
    x.A = S.blk(x.buf, ('blob', IntVal(es)), x.bs); S.tok(x.buf, es * x.bs)
    return x
def opok(S, A, m):
    """every stacked operator is a parenthesis or a complete description of an operator; a function waits for its parameters only right below a parenthesis"""
    b, c = Select(A, k), Select(A, k + 1)
    return [fa(k, 0, m, Implies(D_op(b) != 0, wfop(D_op(b))), [b]), fa(k, 0, m, And(0 <= D_tok(b), D_tok(b) < LIM), [b]), fa(k, 0, m, And(D_glue(b) >= 0, D_glue(b) <= 1), [b]),
            fa(k, 0, m, Implies(And(D_op(b) != 0, Not(isfun(b))), And(D_ar(b) >= 1, D_ar(b) <= 2)), [b]), fa(k, 0, m, Implies(isfun(b), And(D_ar(b) >= 0, D_ar(b) < 4 * NT_)), [b]),
            fa(k, 0, m - 1, Implies(isfun(b), D_op(c) == 0), [b])]
def pst(S, q, ops=True, nodes=True, st=None, nsame=None, osame=None, same=None):
    """state of the parser: stack of complete nodes, each owned; stack of operators"""
    run = S.run; v = P()
    if st is None: o = S.obj(q, 'ParserState', same)
    else: o = st
    v.o = o; v.ctx, v.res, v.cur = o['ctx'], o['result'], o['curr_tok']
    if nodes:
        v.n = stk(S, o['vec_nodes'], 8, nsame and nsame.n); v.R = S.reg('trees', lin_norm(q))
        for f in owned(v.n.A, v.n.count, v.R): S.req(f, 'every stacked node is owned')
        for f in treesok(v.n.A, v.n.count, v.R): S.req(f, 'every stacked node is complete')
        v.T = lambda x: Select(v.R.tree['T'], unptr(Select(v.n.A, x)))
    if ops:
        v.p = stk(S, o['vec_ops'], 32, osame and osame.p)
        for f in opok(S, v.p.A, v.p.count): S.req(f, 'every stacked operator is well formed')
        S.assume(need(v.p.A, 0) == 0)
    return v
def treesok(A, n, R):
    b = unptr(Select(A, k)); T = Select(R.tree['T'], b)
    return [fa(k, 0, n, And(wf(T), T != TNull, T != TGone), [Select(A, k)]), fa(k, 0, n, ari(T), [Select(A, k)])]
def cong_need(A, B, m):
    """the sum depends on the first m elements only"""
    w = nwit(A, B, m); return Or(need(A, m) == need(B, m), And(0 <= w, w < m, Select(A, w) != Select(B, w)))
def top(v): return Select(v.p.A, v.p.count - 1)
def topfun(v): return And(v.p.count > 0, isfun(top(v)))
def others(S, w, v, nodes=True, ops=True, res=True):
    S.req(w.ctx == v.ctx, 'same context')
    if nodes: S.req(w.n.count == v.n.count, 'same nodes'); keepn(S, w, v, v.n.count)
    if ops: S.req(w.p.count == v.p.count, 'same operators'); keepo(S, w, v, v.p.count)
    if res: S.req(And(w.res == v.res, w.cur == v.cur), 'same result and position')
def keepn(S, w, v, n): S.req(fa(k, 0, n, w.T(k) == v.T(k), [Select(w.n.A, k)]), 'nodes below stay')
def keepo(S, w, v, m):
    S.req(fa(k, 0, m, Select(w.p.A, k) == Select(v.p.A, k), [Select(w.p.A, k)]), 'operators below stay')
    if not S.inh: S.assume(cong_need(w.p.A, v.p.A, m))
    S.req(need(w.p.A, m) == need(v.p.A, m))
def axp():
    from vcg.core import Engine
    return ax_parse(Engine.the_prog)
def PC(name, text, props=('C02', 'C03'), **kw):
    kw = dict(TK, close_hooks=[lambda run, T, c: run.assume(def_ari(T))], **kw)
    return contract(name, FILE, props=list(props), text=text, axioms=axp, views=['OpData', PTR(('rec', 'Node'))], norm_hooks=[open_ops], **kw)

def b_strtod(self, a, ats, T, n):
    """strtod: the number at the start of a string and the end of it"""
    self.e.notes.add('C library: strtod (value of the longest number at the start, pointer behind it)')
    s = self.string_at(a[0]); e = numlen(s); self.assume(And(0 <= e, e <= lg.slen(s)))
    self.store(self.resolve(a[1], PTR(CHAR)), lin_norm(a[0] + e))
    return numval(s)
numlen = Function('numlen', Str, I); numval = Function('numval', Str, D)
@PC('try_parse_constant', 'true exactly if the whole text is a number; then its value', models={'strtod': b_strtod})
def try_parse_constant(S):
    s = S.str(S.a[0]); S.cell(S.a[1], DOUBLE); yield
    v = S.cell(S.a[1], DOUBLE)
    S.req(And(0 <= numlen(s), numlen(s) <= lg.slen(s)))
    S.result(numlen(s) == lg.slen(s), 'the whole text is a number')
    S.req(Implies(numlen(s) == lg.slen(s), v == numval(s)), 'value of the number')

@PC('node_push', 'the node is the new last one')
def node_push(S):
    q = S.a[0]; T = S.tree(S.a[1]); S.req(And(wf(T), ari(T)), 'node is complete')
    v = pst(S, q, ops=False); S.req(v.n.count < BIG, 'number of nodes is sensible'); yield
    o = S.obj(q, 'ParserState', keep(v)); w = P()
    w = stacked(S, q, o, v, [(S.a[1], v.n.count)])
    S.req(w.n.count == v.n.count + 1, 'one node more'); keepn(S, w, v, v.n.count)
    S.req(w.T(v.n.count) == T, 'the node is on top')
def keep(v): return {f: v.o[f] for f in ('vec_ops', 'ctx', 'result', 'curr_tok')}
def stacked(S, q, o, v, put=(), same=False):
    w = P(); w.o = o; w.ctx, w.res, w.cur = o['ctx'], o['result'], o['curr_tok']
    w.n = stk(S, o['vec_nodes'], 8, v.n if same else None); w.R = S.reg('trees', lin_norm(q), put=list(put))
    for f in owned(w.n.A, w.n.count, w.R): S.req(f, 'every stacked node is owned')
    for f in treesok(w.n.A, w.n.count, w.R): S.req(f, 'every stacked node is complete')
    w.T = lambda x: Select(w.R.tree['T'], unptr(Select(w.n.A, x)))
    return w

@PC('node_pop', 'removes the last node; false exactly if there is none')
def node_pop(S):
    q = S.a[0]; v = pst(S, q, ops=False); out = S.cell(S.a[1], NODEP); yield
    o = S.obj(q, 'ParserState', keep(v))
    if S.branch(v.n.count == 0):
        w = stacked(S, q, o, v, same=True); S.cell(S.a[1], NODEP, val=out); S.result(FALSE, 'nothing to pop')
        S.req(w.n.count == v.n.count, 'no node')
    else:
        S.result(TRUE, 'a node was popped')
        r = unptr(Select(v.n.A, v.n.count - 1)); 
        if S.inh: S.assume(And(r > 0, r < lg.PTRMAX))
        S.tree(r, v.T(v.n.count - 1)); S.cell(S.a[1], NODEP, val=r)
        w = stacked(S, q, o, v, same=True)
        S.req(w.n.count == v.n.count - 1, 'one node less'); keepn(S, w, v, w.n.count)

def wrong_arity(d): return And(D_op(d) != 0, arity(D_op(d)) != DYN, arity(D_op(d)) != D_ar(d))
def popped(L):
    """x nodes were popped: they are the last x operands, in order"""
    fs = []; g = L.run.ghost.get('pop'); run = L.run
    if g is None: return fs
    v, q, ar = g
    st = [c for c in run.heap.values() if isinstance(c, Obj) and c.T == ('rec', 'ParserState')]
    Rs = [c for c in run.heap.values() if isinstance(c, RegC) and c.kind == 'trees']
    if not st or not Rs: return fs
    o = st[0].val['vec_nodes']; n, buf = o['elem_count'], o['buffer']; A = None
    for c in run.heap.values():
        if isinstance(c, Blk) and c.base.eq(lin_norm(buf)): A = c
    if A is None: return fs
    R = Rs[0]; T = lambda j: Select(R.tree['T'], unptr(Select(A.tree, j)))
    for x in counters(L):
        fs += [n == v.n.count - x, x <= v.n.count]
        fs += owned(A.tree, v.n.count - x, R) + treesok(A.tree, v.n.count - x, R)
        fs += [fa(k, 0, v.n.count - x, T(k) == v.T(k), [Select(A.tree, k)])]
        for cid, c in opens(L):
            b = v.n.count - ar
            fs += [fa(k, ar - x, ar, Select(c.KT, k) == v.T(b + k), [Select(c.KT, k)]), fa(k, ar - x, ar, And(wf(Select(c.KT, k)), ari(Select(c.KT, k)), Select(c.KT, k) != TGone, Select(c.KT, k) != TNull, Select(c.PA, k) > 0), [Select(c.KT, k)]),
                   fa(k, 0, ar - x, And(Select(c.KT, k) == TNull), [Select(c.KT, k)]), fa(k, 0, ar - x, Select(c.PA, k) == 0, [Select(c.PA, k)])]
    return fs
def reduced(S, q, v):
    """what op_pop_and_insert does; returns the new state"""
    d = top(v); ar = D_ar(d); n = v.n.count
    if S.where == 'self' and not S.inh:
        if not S.branch(D_op(d) == 0): S.branch(wrong_arity(d)) or S.branch(n < ar)
    par, wrong = D_op(d) == 0, wrong_arity(d); same = Or(par, wrong); ok = Or(par, And(Not(wrong), n >= ar))
    S.result(ok, 'true exactly if the operator found its operands')
    w = pst(S, q, osame=v, same={'ctx': v.ctx})
    S.req(w.p.count == v.p.count - 1, 'one operator less'); keepo(S, w, v, v.p.count - 1)
    S.req(w.ctx == v.ctx, 'same context'); S.req(w.res == If(wrong, S.const('PERR_FUNCTION_WRONG_ARITY'), v.res), 'result'); S.req(w.cur == If(ok, v.cur, D_tok(d)), 'position')
    if S.inh: S.assume(need(v.p.A, v.p.count - 1) + cneed(d) == need(v.p.A, v.p.count))
    S.req(w.n.count == If(same, n, If(n < ar, 0, n - ar + 1)), 'the operands are replaced by one node'); keepn(S, w, v, If(same, n, If(n < ar, 0, n - ar)))
    T = w.T(n - ar)
    if S.inh: T = S.fresh('node', Tree); S.assume(T == w.T(n - ar))
    made = And(Not(same), n >= ar)
    S.req(Implies(made, And(kind(T) == OP(), opp(T) == D_op(d), nk(T) == ar, tok(T) == D_tok(d), wf(T), ari(T))), 'the operator with its number of operands and its position')
    S.req(fa(k, 0, ar, Implies(made, kid(T, k) == v.T(n - ar + k)), [kid(T, k)]), 'its operands are the last nodes, in order')
    return w
@PC('op_pop_and_insert', 'the last operator and its operands become one node; a parenthesis just disappears')
def op_pop_and_insert(S):
    q = S.a[0]; v = pst(S, q); S.req(And(v.p.count >= 1, v.n.count + v.p.count < BIG), 'there is an operator')
    if S.where == 'self': S.run.ghost['pop'] = (v, q, D_ar(top(v)))
    S.inv(popped)
    yield
    reduced(S, q, v)

@PC('op_peek', 'the last operator, NULL exactly if there is none')
def op_peek(S):
    q = S.a[0]; o = S.obj(q, 'ParserState', ro=True); v = o['vec_ops']
    S.req(And(v['elem_size'] == 32, v['elem_count'] >= 0, v['elem_count'] <= v['buffer_size'], v['buffer_size'] < 2**60), 'vector is well formed'); yield
    if S.branch(v['elem_count'] <= 0): S.result(IntVal(0), 'no operator')
    else: S.result(lin_norm(v['buffer'] + 32 * (v['elem_count'] - 1)), 'the last operator')

redu = Function('reduces', Blob, I, z3.BoolSort())
def reduces(d, op, LEFT): return redu(d, op)
def redu_def(d, op, LEFT):
    """the stacked operator d takes its operands before op is pushed"""
    return And(D_op(d) != 0, Or(prec(op) < prec(D_op(d)), And(prec(op) == prec(D_op(d)), assoc(op) == LEFT)))
def waits(S, v): return v.n.count == need(v.p.A, v.p.count) + If(topfun(v), 0, 1)
def pushing(L):
    g = L.run.ghost.get('push'); run = L.run; fs = []
    if g is None: return fs
    v, op, LEFT = g
    st = [c for c in run.heap.values() if isinstance(c, Obj) and c.T == ('rec', 'ParserState')]
    Rs = [c for c in run.heap.values() if isinstance(c, RegC) and c.kind == 'trees']
    blk = lambda o: next((c for c in run.heap.values() if isinstance(c, Blk) and c.base.eq(lin_norm(o['buffer']))), None)
    if not st or not Rs: return fs
    o = st[0].val; N, O = blk(o['vec_nodes']), blk(o['vec_ops'])
    if N is None or O is None: return fs
    n, m = o['vec_nodes']['elem_count'], o['vec_ops']['elem_count']; R = Rs[0]
    x, y = o['vec_nodes'], o['vec_ops']
    fs += [And(n >= 0, n <= x['buffer_size'], x['buffer_size'] < 2**60), x['buffer'] != 0, N.n == x['buffer_size'], m >= 0, m <= v.p.count, n + m <= v.n.count + v.p.count, x['elem_size'] == 8]
    fs += owned(N.tree, n, R) + treesok(N.tree, n, R)
    fs += [fa(k, 0, m, Select(O.tree, k) == Select(v.p.A, k), [Select(O.tree, k)]), fa(k, 0, m, Select(O.tree, k) == Select(v.p.A, k), [Select(v.p.A, k)])] + opok(L, O.tree, m)
    fs += [o['ctx'] == v.ctx, o['result'] == v.res, o['curr_tok'] == v.cur]
    fs += [n == need(v.p.A, m) + 1, n == need(v.p.A, m) + If(And(m > 0, isfun(Select(O.tree, m - 1))), 0, 1), n >= 0]
    fs += [need(O.tree, m) == need(v.p.A, m)]
    fs += [fa(k, m, v.p.count, reduces(Select(v.p.A, k), op, LEFT), [Select(v.p.A, k)])]
    return fs
def reducing(S, d): return And(D_op(d) != 0, Or(place(D_op(d)) == PL[INF], place(D_op(d)) == PL[POST], D_glue(d) == 1))
def dpack(S, d):
    return And(D_op(d) >= 0)
def pushed(S, q, f):
    """contract of pushing operator op with ar operands known so far"""
    v = pst(S, q); LEFT = S.const('OP_ASSOC_LEFT'); op, ar, tk, glue = f(v)
    S.req(v.n.count + v.p.count < BIG, 'stacks are of sensible size')
    S.req(And(tk >= 0, tk < LIM), 'position of the token')
    S.req(Implies(op != 0, wfop(op)), 'operator is well formed')
    fun = And(op != 0, place(op) == PL[FUN], glue == 0)
    S.req(Implies(And(op != 0, Not(fun)), And(ar >= 1, ar <= 2)), 'number of operands'); S.req(Implies(fun, ar == 0), 'a function has no operand yet')
    red = And(op != 0, Or(place(op) == PL[INF], place(op) == PL[POST], glue == 1))
    S.req(If(red, waits(S, v), And(v.n.count == need(v.p.A, v.p.count), Implies(topfun(v), op == 0))), 'an operand has just been completed exactly for infix and postfix operators')
    if S.where == 'self': S.run.ghost['push'] = (v, op, LEFT)
    S.inv(pushing)
    yield
    if S.inh: ok = S.fresh('ok', z3.BoolSort()); S.ret = ok; good = S.branch(ok)
    else: good = S.branch(to_bool(S.ret))
    w = pst(S, q, same={'ctx': v.ctx})
    S.req(w.ctx == v.ctx, 'same context')
    if not good:
        S.req(w.res == S.const('PERR_FUNCTION_WRONG_ARITY'), 'only a function with a wrong number of operands stops'); S.req(And(w.cur >= 0, w.cur < LIM), 'position of an operator')
        S.req(red, 'nothing is reduced otherwise'); S.g['w'] = w
        return
    m = w.p.count - 1; d = Select(w.p.A, m)
    S.req(And(m >= 0, m <= v.p.count), 'operators only disappear from the top')
    S.req(And(D_op(d) == op, D_ar(d) == ar, D_tok(d) == tk, D_glue(d) == glue), 'the operator is on top')
    keepo(S, w, v, m)
    S.req(And(w.res == v.res, w.cur == v.cur), 'same result and position')
    S.req(Implies(m < v.p.count, red), 'only infix and postfix operators make others take their operands')
    S.req(fa(k, m, v.p.count, reduces(Select(v.p.A, k), op, LEFT), [Select(v.p.A, k)]), 'exactly operators that bind tighter, or as tight and to the left, take their operands before')
    S.req(Implies(And(red, m > 0), Not(reduces(Select(v.p.A, m - 1), op, LEFT))), 'all operators that bind tighter take their operands before')
    S.req(w.n.count == need(v.p.A, m) + If(red, 1, 0), 'number of complete operands')
    S.req(Implies(m == v.p.count, w.n.count == v.n.count), 'no nodes change'); S.req(w.n.count + m <= v.n.count + v.p.count, 'not more nodes and operators')
    if S.inh: S.assume(And(need(w.p.A, m) == need(v.p.A, m), need(w.p.A, m) + cneed(d) == need(w.p.A, m + 1)))
def fields_(d): return d['op'], d['arity'], d['token'], to_int(d['is_glue'])
@PC('op_push', 'reduces the operators that bind tighter, then pushes the operator', budget=240)
def op_push(S):
    d = S.a[1]; yield from pushed(S, S.a[0], lambda v: (d['op'], d['arity'], d['token'], to_int(d['is_glue'])))
@PC('push_operator', 'pushes an operator found in the text', budget=120)
def push_operator(S):
    op = S.a[1]; S.req(op != 0, 'operator is not NULL')
    yield from pushed(S, S.a[0], lambda v: (op, If(place(op) == PL[FUN], IntVal(0), arity(op)), v.cur, IntVal(0)))
@PC('push_opening_parenthesis', 'pushes a parenthesis', budget=120)
def push_opening_parenthesis(S):
    yield from pushed(S, S.a[0], lambda v: (IntVal(0), IntVal(DYN), v.cur, IntVal(0)))

# ---- the main loop
def below(run, O, m):
    """instances of the definition of need (mentions the terms)"""
    for j in (1, 2): run.assume(Implies(m >= j, need(O, m - j) + cneed(Select(O, m - j)) == need(O, m - j + 1)))
    if z3.is_store(O):
        A0, a = O.arg(0), O.arg(1)
        for j in (0, 1, 2): run.assume(Implies(And(m >= j, m - j <= a), need(O, m - j) == need(A0, m - j)))
        below(run, A0, m)
def parsing(L):
    g = L.run.ghost.get('parse'); run = L.run; fs = []
    if g is None: return fs
    p, num, PSUC = g
    st = [c for c in run.heap.values() if isinstance(c, Obj) and c.T == ('rec', 'ParserState')]
    Rs = [c for c in run.heap.values() if isinstance(c, RegC) and c.kind == 'trees']
    blk = lambda o: next((c for c in run.heap.values() if isinstance(c, Blk) and c.base.eq(lin_norm(o['buffer']))), None)
    if not st or not Rs: return fs
    o = st[0].val; x, y = o['vec_nodes'], o['vec_ops']; N, O = blk(x), blk(y)
    if N is None or O is None or N.T[0] != 'blob' or O.T[0] != 'blob': return [BoolVal(True)] * 60
    n, m = x['elem_count'], y['elem_count']; R = Rs[0]; topf = And(m > 0, isfun(Select(O.tree, m - 1)))
    fs += [And(n >= 0, n <= x['buffer_size'], x['buffer_size'] < 2**60), x['buffer'] != 0, N.n == x['buffer_size'], x['elem_size'] == 8]
    fs += [And(m >= 0, m <= y['buffer_size'], y['buffer_size'] < 2**60), y['buffer'] != 0, O.n == y['buffer_size'], y['elem_size'] == 32]
    fs += owned(N.tree, n, R) + treesok(N.tree, n, R) + opok(L, O.tree, m)
    fs += [o['ctx'] == p, o['result'] == PSUC, o['curr_tok'] >= 0, o['curr_tok'] <= num, o['curr_tok'] < num]
    below(run, O.tree, m); J = lambda f: f
    fs += [J(n == need(O.tree, m) + If(topf, 0, 1))]
    pre = L.pre.heap; po = next((c for c in pre.values() if isinstance(c, Obj) and c.T == ('rec', 'ParserState')), None)
    fs += [n + m <= po.val['vec_nodes']['elem_count'] + po.val['vec_ops']['elem_count'] if po is not None else BoolVal(True)]
    for a in [L.cur[q] for q in L.vars]: fs += [n + m <= 2 * a, fa(k, 0, m, Implies(isfun(Select(O.tree, k)), D_ar(Select(O.tree, k)) <= a), [Select(O.tree, k)])]
    vs = [L.cur[q] for q in L.bools]
    for a in vs:
        fs += [Implies(Not(a), J(n == need(O.tree, m))), Implies(a, J(n == need(O.tree, m) + If(topf, 0, 1)))]
        for b in vs:
            if a is b: continue
            fs += [Implies(topf, Or(a, b)), Implies(b, And(Not(a), topf, D_ar(Select(O.tree, m - 1)) == 0))]
    if not L.bools and po is not None: # inner loops: operators below stay
        PO = next((c for c in pre.values() if isinstance(c, Blk) and c.base.eq(lin_norm(po.val['vec_ops']['buffer']))), None)
        fs += [fa(k, 0, m, Select(O.tree, k) == Select(PO.tree, k), [Select(O.tree, k)]), m <= po.val['vec_ops']['elem_count']]
    return fs
def leftn(L):
    """nodes still to be freed"""
    run = L.run
    if run.ghost.get('parse') is None: return []
    Rs = [c for c in run.heap.values() if isinstance(c, RegC) and c.kind == 'trees']
    return []
@PC('parse_tokens', 'a complete tree or an error with the position of a token; nothing else is kept', budget=400)
def parse_tokens(S):
    p, num, toks, out, err = S.a; SUC = S.const('PERR_SUCCESS')
    S.req(And(p != 0, toks != 0, out != 0, err != 0), 'arguments are not NULL')
    o, ver = usectx(S, p); S.req(num < NT_, 'number of tokens is sensible')
    g = o['glue_op']; S.req(Implies(g != 0, And(wfop(g), Or(arity(g) == 2, arity(g) == DYN))), 'glue operator can be binary')
    NM = ronames(S, toks, num)
    if S.where == 'self':
        S.assume(LIM == num); S.newreg('trees', IntVal(1)); S.run.ghost['parse'] = (p, num, SUC)
    S.inv(parsing)
    oldt = S.cell(out, NODEP); olde = S.cell(err, SIZE)
    yield
    if S.inh:
        r = S.ret; S.assume(Or([r == S.const(c) for c in ('PERR_SUCCESS', 'PERR_UNEXPECTED_END_OF_EXPR', 'PERR_UNEXPECTED_INFIX', 'PERR_EXPECTED_INFIX', 'PERR_EXCESS_OPENING_PAREN', 'PERR_UNEXPECTED_CLOSING_PAREN', 'PERR_UNEXPECTED_DELIMITER', 'PERR_EXPECTED_PARAM_LIST', 'PERR_FUNCTION_WRONG_ARITY', 'PERR_UNEXPECTED_CHARACTER')]))
    good = S.branch(S.ret == SUC)
    t = S.cell(out, NODEP)
    if good:
        if S.inh: S.assume(And(t > 0, t < lg.PTRMAX))
        T = S.tree(t); S.req(And(wf(T), ari(T)), 'a complete tree')
    else: S.req(t == oldt, 'no tree is returned')
    e2 = S.cell(err, SIZE)
    if good: S.req(e2 == olde, 'no position without error')
    else: S.req(e2 <= num, 'position of a token')
