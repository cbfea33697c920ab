"""cmd_definition.c, cmd_clear.c, arith_context.c, get_pattern and get_rule: definitions of functions, their roll-back, their removal.
The context is seen as a table (version), the list of definitions as a sequence value; reports of errors are counted."""
from .tree2 import *
from .tree2 import fidx_ax, SA
from . import linked_list as LL, commands as CM
from .commands import isstr, slen, sdrop
from .context import txt, lkop, wfop, usectx, cadd, cdel, ax_table
from .rewriting import MF, RF, close_ops
from .parser import ax_parse, ari, stk, NT_
from .tokenizer import owned
DF, AF, CF, CU = 'src/client/commands/cmd_definition.c', 'src/client/core/arith_context.c', 'src/client/commands/cmd_clear.c', 'src/util/console_util.c'
PFILE = 'src/engine/parsing/parser.c'
ERR = ('gv', 'err')
RL = z3.DeclareSort('RuleList'); radd = Function('radd', RL, Tree, Tree, RL)
x = Int('x!d')
def MAXV(S): return S.const('MAX_MAPPED_VARS')
def track(S):
    """ghosts of a verified function: number of error reports"""
    g = S.run.ghost
    if S.where == 'self' and S.phase == 'pre' and ERR not in g: g[ERR] = S.fresh('err', I)
    return g.get(ERR), None
def reported(S, e0, bad):
    """errors are reported exactly in the bad case"""
    g = S.run.ghost
    if e0 is None: return
    if S.inh: g[ERR] = S.fresh('err', I)
    S.req(g[ERR] >= e0); S.req((g[ERR] > e0) == bad, 'an error is reported exactly on failure')
# ------------------------------------------------------------ messages
def message(name, err):
    @contract(name, CU, text='prints a message', props=['C14'] if err else [])
    def g(S):
        if S.where == 'self': S.str(S.a[2 if name == 'report_error_at' else 0])
        if S.where == 'self' and 'interactive' in S.run.prog.globals: S.cell(S.glob('interactive'), BOOL, ro=True)
        yield
        if S.where != 'self' and err and ERR in S.run.ghost: S.run.ghost[ERR] = lin_norm(S.run.ghost[ERR] + 1)
message('report_error', True); message('report_error_at', True); message('whisper', False)


# ------------------------------------------------------------ left side of a definition
Z = IntVal(0)
def LV(S, T): return LC(MAXV(S), T, Z, N0)
def flat(S, T):
    """a node with variables as operands, at most as many as can be mapped: they all fit"""
    b, n = MAXV(S), nk(T); i_ = Int('i!F'); t = Const('t!F', Tree)
    h = lambda T: And(kind(T) == OP(), ForAll([x], Implies(And(0 <= x, x < nk(T)), kind(kid(T, x)) == VA()), patterns=[kid(T, x)]), nk(T) <= b, b >= 1)
    U = And(U_list(b, t, Z, N0), fidx_ax()); c = lambda n: LCp(b, t, Z, N0, n)
    q = kid(t, i_)
    by_induction(Implies(And(h(t), U), And(c(Z) <= 0, c(Z) >= 0)), Implies(And(h(t), U, 0 <= i_, i_ < nk(t), 0 <= c(i_), c(i_) <= i_, q == q, U_list(b, q, c(i_), LNp(b, t, Z, N0, i_))), And(0 <= c(i_ + 1), c(i_ + 1) <= i_ + 1)))
    return Implies(h(T), And(LC(b, T, Z, N0) >= 0, LC(b, T, Z, N0) <= nk(T)))
def leftok(S, T):
    n = nk(T)
    return And(kind(T) == OP(), lg.opplace(opp(T)) == S.const('OP_PLACE_FUNCTION'), ForAll([x], Implies(And(0 <= x, x < n), kind(kid(T, x)) == VA()), patterns=[kid(T, x)]), Implies(n > 0, LV(S, T) == n))
def args_vars(L):
    T = L.run.ghost.get('left')
    return [] if T is None else [ForAll([x], Implies(And(0 <= x, x < y), kind(kid(T, x)) == VA()), patterns=[kid(T, x)]) for y in counters(L)]
@contract('do_left_checks', DF, props=['C14'], text='true exactly for a function applied to distinct variables (at most as many as can be mapped); an error is reported otherwise', norm_hooks=[close_ops], axioms=lambda: ax_listed(), **TK)
def do_left_checks(S):
    e0, _ = track(S); T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete')
    if S.where == 'self': S.run.ghost['left'] = T
    S.inv(args_vars); yield
    b = MAXV(S); ok = leftok(S, T); S.assume(U_list(b, T, Z, N0))
    S.req(to_bool(S.ret) == ok, 'a function applied to distinct variables'); reported(S, e0, Not(ok))
    T2 = S.tree(S.a[0]); S.req(wf(T2), 'tree is complete')
    S.req(And(kind(T2) == kind(T), Implies(kind(T) == OP(), And(opp(T2) == opp(T), nk(T2) == nk(T)))), 'same function and number of parameters')
    S.req(Implies(ok, And(nk(T) <= b, ForAll([x], Implies(And(0 <= x, x < nk(T)), kind(kid(T2, x)) == VA()), patterns=[kid(T2, x)]))), 'parameters are variables')

# ------------------------------------------------------------ patterns and rules
@contract('get_pattern', MF, props=['C09', 'C14', 'C19'], text='(without conditions) a pattern of the tree, its variables numbered in order of first occurrence; an error exactly if there are too many variables', norm_hooks=[open_ops], axioms=lambda: [fidx_ax()] + ax_listed(), **TK)
def get_pattern(S):
    S.req(S.a[1] == 0, 'verified for patterns without conditions')
    T = S.tree(S.a[0]); S.req(wf(T), 'tree is complete'); b = MAXV(S); S.obj(S.a[3], 'Pattern')
    yield
    o = S.obj(S.a[3], 'Pattern'); S.tree(S.a[0], LT(b, T, Z, N0), 'pattern')
    if S.inh: S.assume(flat(S, LT(b, T, Z, N0)))
    S.result(If(LV(S, T) == -1, IntVal(-1) if 'MAX_MAPPED_VARS_EXCEEDED' not in S.run.e.macros else S.const('MAX_MAPPED_VARS_EXCEEDED'), 0), 'error exactly if there are too many variables')
    S.req(o['pattern'] == S.a[0], 'pattern'); S.req(wf(LT(b, T, Z, N0)), 'tree is complete'); S.req(ForAll([x], Implies(And(0 <= x, x < b), Select(o['num_constraints'].tree, x) == 0), patterns=[Select(o['num_constraints'].tree, x)]), 'no conditions')
def ax_nonumber():
    t, N = Const('t!0', Tree), Const('N!0', SA); return ForAll([t, N], idmap(t, N, 0) == t, patterns=[idmap(t, N, 0)])     # no names: nothing is renumbered
def closed(S, A, P):
    """every variable of A occurs in P (A has no more variables than can be mapped)"""
    b = MAXV(S); n = LC(b, A, Z, N0); v = Select(LN(b, A, Z, N0), x)
    return Or(nvars(A) == 0, And(n != -1, ForAll([x], Implies(And(0 <= x, x < n), occ(P, v) > 0), patterns=[v])))
def bound_vars(L):
    g = L.run.ghost.get('closed')
    if g is None: return []
    A, P, b = g; v = Select(LN(b, A, Z, N0), x)
    return [ForAll([x], Implies(And(0 <= x, x < y), occ(P, v) > 0), patterns=[v]) for y in counters(L)]
@contract('get_rule', RF, props=['C09', 'C14', 'C19'], text='true exactly if every variable of the right-hand side occurs in the pattern; then the rule of both, variables numbered alike', norm_hooks=[open_ops],
          axioms=lambda: [fidx_ax(), sum_ax(occ, (Str,)), sum_ax(nvars), ax_nonumber()] + ax_listed(), **TK)
def get_rule(S):
    pt, after, out = S.a; b = MAXV(S); P = S.tree(pt['pattern']); A = S.tree(after); S.req(And(wf(P), wf(A)), 'trees are complete'); S.req(LV(S, P) != -1, 'the pattern has no more variables than can be mapped'); S.obj(out, 'RewriteRule')
    if S.where == 'self': S.run.ghost['closed'] = (A, P, b)
    S.inv(bound_vars); yield
    o = S.obj(out, 'RewriteRule'); ok = closed(S, A, P)
    S.req(to_bool(S.ret) == ok, 'every variable of the right-hand side occurs in the pattern')
    P2 = S.tree(pt['pattern']); A2 = S.tree(after); S.req(And(wf(P2), wf(A2)), 'trees are complete')
    S.req(Implies(ok, And(S.run.veq(o['pattern'], pt), o['after'] == after)), 'the rule consists of both sides')
    A1 = If(nvars(A) > 0, LT(b, A, Z, N0), A)
    if S.inh: S.run.ghost['rule'] = (P, A, P2, A2)
    if S.branch(ok):
        S.req(P2 == LT(b, P, Z, N0), 'the pattern is only numbered'); S.req(A2 == idmap(A1, LN(b, P, Z, N0), LC(b, P, Z, N0)), 'variables of the right-hand side get the numbers of the pattern')

# ------------------------------------------------------------ results of the parser
ERRS = ('PERR_UNEXPECTED_END_OF_EXPR', 'PERR_UNEXPECTED_INFIX', 'PERR_EXPECTED_INFIX', 'PERR_EXCESS_OPENING_PAREN', 'PERR_UNEXPECTED_CLOSING_PAREN', 'PERR_UNEXPECTED_DELIMITER', 'PERR_EXPECTED_PARAM_LIST', 'PERR_FUNCTION_WRONG_ARITY', 'PERR_UNEXPECTED_CHARACTER')
def inparser(S): return S.where == 'self' and S.run.e.c.file == PFILE or S.run.e.c.file == PFILE
def tokens(S, p, o):
    """the tokens of a result: own strings in an own vector; seen as one resource by users of the parser"""
    if not inparser(S): S.pred('tokens', p, []); return
    v = o['tokens']; x_ = stk(S, v, 8); R = S.reg('strs', p)
    for f in owned(x_.A, x_.count, R): S.req(f, 'every token is an own string')
@contract('parse_input', PFILE, props=['C02', 'C14'], text='tokens and either a complete tree or an error', axioms=lambda: axp_(), budget=200)
def parse_input(S):
    p, inp, out = S.a; s = S.str(inp); S.assume(slen(s) < NT_); S.run.e.notes.add('a line has less than 2^42 characters'); o, ver = usectx(S, p); S.obj(out, 'ParsingResult')
    g = o['glue_op']; S.req(Implies(g != 0, And(wfop(g), Or(lg.oparity(g) == 2, lg.oparity(g) == 2**64 - 1))), 'glue operator can be binary')
    yield
    SUC = S.const('PERR_SUCCESS'); w = S.obj(out, 'ParsingResult'); e = w['error']
    S.req(Or([e == SUC] + [e == S.const(c) for c in ERRS]), 'success or an error'); S.result(e == SUC, 'success')
    tokens(S, out, w)
    if S.branch(e == SUC): T = S.tree(w['tree']); S.req(And(wf(T), ari(T)), 'a complete tree')
@contract('free_result', PFILE, props=['C02', 'C14'], text='releases the tokens of a result, and the tree if asked to; a result without tokens is left alone', axioms=lambda: axp_())
def free_result(S):
    p = S.a[0]; o = S.obj(p, 'ParsingResult'); NUL, SUC = S.const('PERR_NULL'), S.const('PERR_SUCCESS'); also = to_bool(S.a[1])
    if not S.branch(o['error'] != NUL):
        yield; S.obj(p, 'ParsingResult', o); return
    tokens(S, p, o); rel = S.branch(And(also, o['error'] == SUC))
    if rel: S.tree(o['tree'])
    yield
    w = S.obj(p, 'ParsingResult'); S.req(w['error'] == NUL, 'nothing is left'); S.req(w['tree'] == (IntVal(0) if rel else o['tree']), 'the tree is kept unless released')
@contract('show_error_at_token', AF, props=[], trusted='prints a message at the position of a token; the sum of the lengths of tokens is taken to fit an int', text='reports an error')
def show_error_at_token(S):
    S.pred('tokens', S.a[0], ro=True); S.str(S.a[2]); yield
    if ERR in S.run.ghost: S.run.ghost[ERR] = lin_norm(S.run.ghost[ERR] + 1)
def gctx(S, ro=True): return usectx(S, S.glob('__g_ctx'), ro=ro)
def glue(S, o):
    g = o['glue_op']; S.req(Implies(g != 0, And(wfop(g), Or(lg.oparity(g) == 2, lg.oparity(g) == 2**64 - 1))), 'glue operator can be binary')
@contract('arith_parse_raw', AF, props=['C14'], text='a complete tree with its tokens, or a reported error and nothing kept', axioms=lambda: axp_())
def arith_parse_raw(S):
    e0, _ = track(S); o, ver = gctx(S); glue(S, o); S.str(S.a[0]); S.obj(S.a[2], 'ParsingResult'); yield
    w = S.obj(S.a[2], 'ParsingResult'); ok = to_bool(S.ret); reported(S, e0, Not(ok))
    if S.branch(ok): S.req(w['error'] == S.const('PERR_SUCCESS'), 'success'); tokens(S, S.a[2], w); T = S.tree(w['tree']); S.req(And(wf(T), ari(T)), 'a complete tree')
    else: S.req(w['error'] == S.const('PERR_NULL'), 'nothing is kept')
@contract('arith_simplify', AF, props=[], trusted='definitions and simplification rules are applied; what they do to a tree is the subject of other properties', text='the simplified tree, or a reported error and nothing kept; the result is released')
def arith_simplify(S):
    e0, _ = track(S); p = S.a[0]; o = S.obj(p, 'ParsingResult'); S.req(o['error'] == S.const('PERR_SUCCESS'), 'a parsed expression'); tokens(S, p, o); T = S.tree(o['tree']); S.req(wf(T), 'tree is complete')
    yield
    if S.inh: S.run.ghost['body'] = T
    w = S.obj(p, 'ParsingResult'); S.req(w['error'] == S.const('PERR_NULL'), 'the result is released'); reported(S, e0, S.ret == 0)
    if S.branch(S.ret != 0): T2 = S.tree(S.ret); S.req(wf(T2), 'tree is complete')

# ------------------------------------------------------------ the list of definitions
dn = Function('dn', RL, I); dnode, dop = Function('dnode', RL, I, I), Function('dop', RL, I, I); dpos = Function('dpos', RL, I, I)      # number of definitions, their list nodes and operators
ddel = Function('ddel', RL, I, RL)
dhas = Function('dhas', RL, I, z3.BoolSort())      # some definition has this operator
R_ = Const('R!d', RL); k_, m_, q_ = Ints('k!d m!d q!d'); t1_, t2_ = Const('t1!d', Tree), Const('t2!d', Tree)
def ax_defs():
    D_ = ddel(R_, m_); sh = If(k_ < m_, k_, k_ + 1)
    return [ForAll([R_], And(dn(R_) >= 0, dn(R_) < 2**44), patterns=[dn(R_)]),
            ForAll([R_, k_], Implies(And(0 <= k_, k_ < dn(R_)), And(dnode(R_, k_) > 0, dnode(R_, k_) < lg.PTRMAX - 1000, dpos(R_, dnode(R_, k_)) == k_)), patterns=[dnode(R_, k_)]),
            ForAll([R_, m_], Implies(And(0 <= m_, m_ < dn(R_)), dn(D_) == dn(R_) - 1), patterns=[D_]),
            ForAll([R_, k_], Implies(And(0 <= k_, k_ < dn(R_)), dhas(R_, dop(R_, k_))), patterns=[dop(R_, k_)]),
            ForAll([R_, t1_, t2_], And(dn(radd(R_, t1_, t2_)) == dn(R_) + 1, dop(radd(R_, t1_, t2_), dn(R_)) == opp(t1_)), patterns=[radd(R_, t1_, t2_)]),
            ForAll([R_, t1_, t2_, k_], Implies(And(0 <= k_, k_ < dn(R_)), And(dop(radd(R_, t1_, t2_), k_) == dop(R_, k_), dnode(radd(R_, t1_, t2_), k_) == dnode(R_, k_))), patterns=[dop(radd(R_, t1_, t2_), k_)]),
            ForAll([R_, q_], Implies(dhas(R_, q_), dn(R_) > 0), patterns=[dhas(R_, q_)]),
            ForAll([R_, m_, q_], Implies(And(0 <= m_, m_ < dn(R_), dhas(R_, q_), q_ != dop(R_, m_)), dhas(D_, q_)), patterns=[dhas(D_, q_)]),
            ForAll([R_, m_, k_], Implies(And(0 <= m_, m_ < dn(R_), 0 <= k_, k_ < dn(D_)), And(dop(D_, k_) == dop(R_, sh))), patterns=[dop(D_, k_)])]
def opn(q): return txt(lg.opname(q))
def defs(S, ro=False, R=None):
    """the list of definitions: its record and, for every definition, list node, rule, trees and name"""
    p = S.glob('__g_composite_functions'); o = S.obj(p, 'LinkedList', ro=ro); R = S.pred('definitions', p, None if R is None else [R], sorts=(RL,), ro=ro)[0]
    S.req(And(o['count'] == dn(R), o['first'] == If(dn(R) > 0, dnode(R, 0), 0)), 'list of definitions')
    return R
def known(S, R, ver):
    """the operator of every definition is the one its name leads to, and no other definition has it"""
    FUN = S.const('OP_PLACE_FUNCTION'); q = dop(R, k_); q2 = dop(R, m_)
    S.req(ForAll([k_], Implies(And(0 <= k_, k_ < dn(R)), And(q > 0, lkop(ver, opn(q), FUN) == q, lg.validop(q))), patterns=[q]), 'definitions belong to operators of the context')
    S.req(ForAll([k_, m_], Implies(And(0 <= k_, k_ < m_, m_ < dn(R)), q != q2), patterns=[z3.MultiPattern(q, q2)]), 'one definition for an operator')
def node_of(S, p, R):
    k = dpos(R, p); S.req(And(0 <= k, k < dn(R), dnode(R, k) == p), 'a definition of the list'); return k
def noconstr(S, pt):
    S.req(ForAll([x], Implies(And(0 <= x, x < MAXV(S)), Select(pt['num_constraints'].tree, x) == 0), patterns=[Select(pt['num_constraints'].tree, x)]), 'no conditions')
# ------------------------------------------------------------ definitions
def rule_in(S, r):
    b = MAXV(S); P = S.tree(r['pattern']['pattern']); A = S.tree(r['after']); S.req(And(wf(P), wf(A), kind(P) == OP()), 'a rule for an operator')
    S.req(ForAll([x], Implies(And(0 <= x, x < b), Select(r['pattern']['num_constraints'].tree, x) == 0), patterns=[Select(r['pattern']['num_constraints'].tree, x)]), 'no conditions')
    return P, A
def cl_append(S):
    S.req(S.a[0] == S.glob('__g_composite_functions'), 'the list of definitions'); R = defs(S); r = S.obj(S.a[1], 'RewriteRule', ro=True); P, A = rule_in(S, r)
    yield
    S.assume(S.ret > 0); defs(S, R=radd(R, P, A)); S.rotree(r['pattern']['pattern'], P)      # it can still be read
@contract('add_composite_function', AF, props=['C14'], text='exactly this definition is added', axioms=lambda: ax_defs())
def add_composite_function(S):
    r = S.a[0]; P, A = rule_in(S, r); R = defs(S); yield
    defs(S, R=radd(R, P, A)); S.rotree(r['pattern']['pattern'], P)      # it can still be read
def axp_():
    from vcg import core
    return ax_parse(core.Engine.the_prog) + ax_table() + ax_listed() + ax_defs()
@contract('add_function', DF, props=['C14'], text='a definition is accepted as a whole or rejected with an error, then operators and definitions are as before and everything is released', axioms=lambda: axp_(), budget=300, **TK)
def add_function(S):
    e0, _ = track(S); name, left, right, isc = S.a; FUN = S.const('OP_PLACE_FUNCTION'); p = S.glob('__g_ctx')
    nm_ = S.str(name, own=True); S.str(left); S.str(right); o, ver = gctx(S, ro=False); glue(S, o); R0 = defs(S); known(S, R0, ver)
    S.assume(txt(name) == nm_)
    yield
    g = S.run.ghost; ok = to_bool(S.ret); w = S.obj(p, 'ParsingContext'); reported(S, e0, Not(ok))
    S.req(S.run.veq(w, o), 'glue operator stays')
    if not S.branch(ok):
        S.pred('context', p, [ver]); r = defs(S, R=R0 if S.inh else None)
        S.req(r == R0, 'a rejected definition leaves the definitions as they were'); return
    if S.inh:
        q, P, A = S.fresh('op', I), S.fresh('P', Tree), S.fresh('A', Tree); v2 = cadd(ver, nm_, FUN, q); S.pred('context', p, [v2]); R2 = defs(S, R=radd(R0, P, A))
    else:
        R2 = defs(S)
        if not (z3.is_app(R2) and R2.decl().eq(radd)): S.req(FALSE, 'an accepted definition adds one definition'); return
        S.req(R2.arg(0) == R0, 'an accepted definition adds one definition'); P, A = R2.arg(1), R2.arg(2)
        S.str(name, own=True)
    S.req(lkop(ver, nm_, FUN) == 0, 'only free names are defined')
    if not S.inh:
        v2 = S.pred('context', p, sorts=(I,))[0]; q = v2.arg(3) if z3.is_app(v2) and v2.decl().eq(cadd) else None
        if q is None: S.req(FALSE, 'exactly one operator is added'); return
        S.req(v2 == cadd(ver, nm_, FUN, q), 'exactly one operator is added')
    S.req(And(kind(P) == OP(), wf(P), wf(A), lg.opplace(opp(P)) == FUN, lg.oparity(q) == If(to_bool(isc), 0, nk(P))), 'a rule for a function of as many operands as there are parameters')
    if not S.inh:
        B, R = g.get('body'), g.get('rule')
        if B is None or R is None: S.req(FALSE, 'the definition is checked'); return
        S.req(And(P == R[2], A == R[3], closed(S, R[1], R[0])), 'every variable of the definition is a parameter')
        S.req(Not(hasop(B, lg.opid(q))), 'the definition does not use the new operator')
    S.req(lg.opname(q) == name, 'the new operator has the name')
    S.req(Implies(Not(to_bool(isc)), opp(P) == q), 'the rule is about the new operator')
    if not S.inh: S.assume(Implies(to_bool(isc), opp(P) == q)); S.run.e.notes.add('the left side of the definition of a constant, one token, is the new operator')
    known(S, R2, v2)

# ------------------------------------------------------------ removing definitions
def cl_delete(S):
    S.req(S.a[0] == S.glob('__g_composite_functions'), 'the list of definitions'); R = defs(S); k = node_of(S, S.a[1], R); S.obj(lin_norm(S.a[1] + 16), 'RewriteRule')
    yield
    defs(S, R=ddel(R, k))
def cl_count(S):
    S.req(S.a[0] == S.glob('__g_composite_functions'), 'the list of definitions'); R = defs(S, ro=True); yield; S.result(dn(R), 'number of definitions')
def cl_next(S):
    R = S.pred('definitions', S.glob('__g_composite_functions'), sorts=(RL,), ro=True)[0]; k = node_of(S, S.a[0], R); yield
    S.result(If(k + 1 < dn(R), dnode(R, k + 1), 0), 'next definition')
def cl_data(S):
    S.req(S.a[0] != 0, 'node is not NULL'); run = S.run; cid = run.find_pred('definitions', S.glob('__g_composite_functions')); p = lin_norm(S.a[0] + 16)
    yield
    S.result(p, 'address of the payload')
    if cid is None or any(isinstance(c, Obj) and c.base.eq(p) for c in run.heap.values()): return
    R = run.heap[cid].args[0]; k = dpos(R, S.a[0])
    if not S.valid(And(0 <= k, k < dn(R), dnode(R, k) == S.a[0])): return
    o = S.obj(p, 'RewriteRule', ro=True); T = S.rotree(o['pattern']['pattern']); S.assume(And(kind(T) == OP(), opp(T) == dop(R, k)))
LL.CLIENT[AF] = {'list_append': cl_append, 'list_delete_node': cl_delete, 'list_count': cl_count, 'listnode_get_next': cl_next, 'listnode_get_data': cl_data}
def axd():
    return axp_()
@contract('free_pattern', MF, props=['C09', 'C14'], text='(without conditions) releases the tree of the pattern', **TK)
def free_pattern(S):
    o = S.obj(S.a[0], 'Pattern', ro=True); noconstr(S, o); S.tree(o['pattern']); yield
@contract('remove_node', AF, props=['C14'], text='exactly this definition disappears: its operator, name, rule and list node', axioms=lambda: axd(), **TK)
def remove_node(S):
    p = S.a[0]; o, ver = gctx(S, ro=False); R = defs(S); k = node_of(S, p, R); q = dop(R, k); FUN = S.const('OP_PLACE_FUNCTION'); nm_ = opn(q)
    S.req(And(q > 0, lg.validop(q), lkop(ver, nm_, FUN) == q), 'its operator is in the context')
    if S.where == 'self':
        r = S.obj(lin_norm(p + 16), 'RewriteRule'); noconstr(S, r['pattern']); T = S.tree(r['pattern']['pattern']); A = S.tree(r['after']); S.assume(And(wf(T), wf(A), kind(T) == OP(), opp(T) == q))
        S.str(lg.opname(q), nm_, own=True)
    yield
    w = S.obj(S.glob('__g_ctx'), 'ParsingContext'); S.req(S.run.veq(w, o), 'glue operator stays'); S.pred('context', S.glob('__g_ctx'), [cdel(ver, nm_, FUN)]); defs(S, R=ddel(R, k))
def notyet(L):
    g = L.run.ghost.get('search'); fs = []
    if g is None: return fs
    R, f = g
    for q in sorted(L.plan, key=str):
        v = L.cur.get(q)
        if v is None or not z3.is_expr(v) or v.sort() != I: continue
        d = dpos(R, v); up = If(v == 0, dn(R), d)
        fs += [Or(v == 0, And(0 <= d, d < dn(R), dnode(R, d) == v)), ForAll([k_], Implies(And(0 <= k_, k_ < up), dop(R, k_) != f), patterns=[dop(R, k_)])]
    return fs
@contract('remove_composite_function', AF, props=['C14'], text='removes exactly the definition of this operator; an error if it has none', axioms=lambda: axd(), **TK)
def remove_composite_function(S):
    e0, _ = track(S); f = S.a[0]; o, ver = gctx(S, ro=False); R = defs(S); known(S, R, ver); FUN = S.const('OP_PLACE_FUNCTION')
    if S.where == 'self': S.run.ghost['search'] = (R, f)
    S.inv(notyet); yield
    w = S.obj(S.glob('__g_ctx'), 'ParsingContext'); S.req(S.run.veq(w, o), 'glue operator stays'); ok = to_bool(S.ret)
    reported(S, e0, Not(ok))
    if S.branch(ok):
        if S.inh: k = S.fresh('k', I); S.assume(And(0 <= k, k < dn(R), dop(R, k) == f)); R2 = defs(S, R=ddel(R, k))
        else:
            R2 = defs(S); k = R2.arg(1) if z3.is_app(R2) and R2.decl().eq(ddel) and R2.arg(0).eq(R) else None
            if k is None: S.req(FALSE, 'exactly one definition is removed'); return
        S.req(And(0 <= k, k < dn(R), dop(R, k) == f), 'the definition of this operator is removed')
        v2 = cdel(ver, opn(f), FUN); S.pred('context', S.glob('__g_ctx'), [v2]); known(S, R2, v2)
    else:
        if not S.inh: S.req(ForAll([k_], Implies(And(0 <= k_, k_ < dn(R)), dop(R, k_) != f), patterns=[dop(R, k_)]), 'refused only for operators without definition')
        else: S.assume(Not(dhas(R, f)))
        defs(S, R=R); S.pred('context', S.glob('__g_ctx'), [ver])
@contract('clear_composite_functions', AF, props=['C14'], text='afterwards there is no definition; only operators of definitions have left the context', axioms=lambda: axd(), **TK)
def clear_composite_functions(S):
    o, ver = gctx(S, ro=False); R = defs(S); known(S, R, ver); FUN = S.const('OP_PLACE_FUNCTION'); s_, pl_ = Const('s!d', lg.Str), Int('pl!d')
    isdef = lambda q: dhas(R, q)
    kept = lambda v: ForAll([s_, pl_], Or(lkop(v, s_, pl_) == lkop(ver, s_, pl_), And(pl_ == FUN, lkop(v, s_, pl_) == 0, isdef(lkop(ver, s_, pl_)))), patterns=[lkop(v, s_, pl_)])
    gone = lambda v, R2: ForAll([k_], Implies(And(0 <= k_, k_ < dn(R)), Or(dhas(R2, dop(R, k_)), lkop(v, opn(dop(R, k_)), FUN) == 0)), patterns=[dop(R, k_)])
    def inv(L):
        run = L.run; p, c = run.find_pred('definitions', S.glob('__g_composite_functions')), run.find_pred('context', S.glob('__g_ctx'))
        R2, v = run.heap[p].args[0], run.heap[c].args[0]; q, q2 = dop(R2, k_), dop(R2, m_)
        return [ForAll([k_], Implies(And(0 <= k_, k_ < dn(R2)), And(q > 0, lkop(v, opn(q), FUN) == q, lg.validop(q))), patterns=[q]),
                ForAll([k_, m_], Implies(And(0 <= k_, k_ < m_, m_ < dn(R2)), q != q2), patterns=[z3.MultiPattern(q, q2)]),
                ForAll([k_], Implies(And(0 <= k_, k_ < dn(R2)), isdef(q)), patterns=[q]), gone(v, R2), kept(v), dn(R2) <= dn(R)] + same(run, R2)
    def at(run, b, T):
        return next((c for c in run.heap.values() if isinstance(c, Obj) and c.base.eq(b)), None)
    def same(run, R2):
        a, b = at(run, S.glob('__g_composite_functions'), 0), at(run, S.glob('__g_ctx'), 0)
        return [a.val['count'] == dn(R2), a.val['first'] == If(dn(R2) > 0, dnode(R2, 0), 0), run.veq(b.val, o)]
    S.inv(inv)
    yield
    w = S.obj(S.glob('__g_ctx'), 'ParsingContext'); S.req(S.run.veq(w, o), 'glue operator stays'); R2 = defs(S); S.req(dn(R2) == 0, 'no definition is left')
    v2 = S.pred('context', S.glob('__g_ctx'), sorts=(I,))[0]; S.req(gone(v2, R2), 'the names of all definitions are free'); S.req(kept(v2), 'only operators of definitions leave the context')

# ------------------------------------------------------------ the clear command
def clear_exec(S):
    e0, _ = track(S); inp, code = S.a; s = S.str(inp, ro=False); b = CM.failed_before(S); o, ver = gctx(S, ro=False); R = defs(S); known(S, R, ver); FUN = S.const('OP_PLACE_FUNCTION')
    S.req(And(CM.DISPATCH[3][1](s), code == CM.DISPATCH[3][2](s)), 'a line of the clear command'); S.run.e.notes.add('every definition belongs to an operator of the context found by its name, no two to the same (kept by every function that changes definitions)')
    yield
    CM.failed_after(S, b); S.blk(inp, CHAR, lin_norm(slen(s) + 1)); p = S.glob('__g_ctx'); ok = to_bool(S.ret)
    w = S.obj(p, 'ParsingContext'); S.req(S.run.veq(w, o), 'glue operator stays'); R2 = defs(S); v2 = S.pred('context', p, sorts=(I,))[0]; reported(S, e0, Not(ok)); known(S, R2, v2)
    if S.branch(isstr(s, 'clear')):
        S.req(ok, 'clear succeeds'); S.req(dn(R2) == 0, 'no definition is left'); return
    f = lkop(ver, sdrop(s, 6), FUN)
    if S.branch(ok):
        k = R2.arg(1) if z3.is_app(R2) and R2.decl().eq(ddel) and R2.arg(0).eq(R) else None
        if k is None: S.req(FALSE, 'exactly one definition is removed'); return
        S.req(And(f != 0, 0 <= k, k < dn(R), dop(R, k) == f), 'the definition of this name is removed'); S.req(v2 == cdel(ver, opn(f), FUN), 'and nothing but its operator')
    else:
        S.req(And(R2 == R, v2 == ver), 'no change'); S.req(Or(f == 0, Not(dhas(R, f))), 'refused only without a definition of this name')
CM.EXEC['clear'] = clear_exec; CM.EXEC_AX['clear'] = lambda: axd() + CM.ax_dispatch()
