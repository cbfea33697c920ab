"""tree_to_string.c: the text of a tree as a function of the tree, appended piece by piece to a text builder.
PR(t, T, l, r) is the text t followed by the rendering of T, protected to the left / right; coloured output is the same up to escape sequences."""
from .tree import *
from .strings import islet
from .string_builder import SB, appc, apps, appd, esc, plain, sb0, code
FILE = 'src/engine/tree/tree_to_string.c'
B = z3.BoolSort()
PR = Function('PR', Str, Tree, B, B, Str)
PRk = Function('PRk', Str, Tree, I, Str)              # text followed by the first operands, separated by commas
opstr = Function('opstr', I, Str)                     # name of an operator
shp = Function('shp', Tree, B)                        # operators have as many operands as their placement demands
t_, u_ = Const('t!p', Str), Const('u!p', Str); c_ = Int('c!p'); d_ = Const('d!p', D)
def ax_plain():
    A = lambda vs, x, y: ForAll(vs, plain(x) == y, patterns=[x])
    return [A([t_, c_], appc(t_, c_), appc(plain(t_), c_)), A([t_, u_], apps(t_, u_), apps(plain(t_), u_)),
            A([t_, c_, d_], appd(t_, c_, d_), appd(plain(t_), c_, d_)), A([t_, c_], esc(t_, c_), plain(t_)), plain(sb0) == sb0]
def name_hook(run, p):
    """names of operators are readable"""
    if z3.is_app(p) and p.decl().eq(lg.opname): return opstr(p.arg(0))
    return None

# ------------------------------------------------------------ what is printed
def isop(T): return kind(T) == OP()
def pr(T): return lg.opprec(opp(T))
def paren(t, T): return appc(PR(appc(t, IntVal(40)), T, FALSE, FALSE), IntVal(41))
def name(T): return opstr(opp(T))
def open_if(t, b): return If(b, appc(t, IntVal(40)), t)
def close_if(t, b): return If(b, appc(t, IntVal(41)), t)
def r_prefix(S, t, T, l, r):
    K = kid(T, 0); u = apps(open_if(t, l), name(T))
    return close_if(If(And(isop(K), pr(K) <= pr(T)), paren(u, K), PR(u, K, TRUE, And(Not(l), r))), l)
def r_postfix(S, t, T, l, r):
    K = kid(T, 0); u = open_if(t, r)
    return close_if(apps(If(And(isop(K), pr(K) < pr(T)), paren(u, K), PR(u, K, And(l, Not(r)), TRUE)), name(T)), r)
def r_infix(S, t, T, l, r):
    K, R = kid(T, 0), kid(T, 1); RIGHT, LEFT, POST = S.const('OP_ASSOC_RIGHT'), S.const('OP_ASSOC_LEFT'), S.const('OP_PLACE_POSTFIX'); a = lg.opassoc(opp(T))
    u = If(And(isop(K), Or(pr(K) < pr(T), And(pr(K) == pr(T), a == RIGHT))), paren(t, K), PR(t, K, l, TRUE))
    u = If(islet(lg.sch(name(T), IntVal(0))), appc(apps(appc(u, IntVal(32)), name(T)), IntVal(32)), apps(u, name(T)))
    return If(And(isop(R), Or(pr(R) < pr(T), And(pr(R) == pr(T), Or(a == LEFT, lg.opplace(opp(R)) == POST)))), paren(u, R), PR(u, R, TRUE, r))
def r_function(S, t, T, l, r):
    u = apps(t, name(T))
    return If(lg.oparity(opp(T)) != 0, appc(PRk(appc(u, IntVal(40)), T, nk(T)), IntVal(41)), u)
KINDS = {'OP_PLACE_PREFIX': r_prefix, 'OP_PLACE_POSTFIX': r_postfix, 'OP_PLACE_FUNCTION': r_function, 'OP_PLACE_INFIX': r_infix}
def U_PR(S, t, T, l, r):
    """definition at the root T"""
    x = PR(t, T, l, r); num = code(b'%.10g')
    return And([Implies(kind(T) == CO(), x == appd(t, num, cval(T))), Implies(kind(T) == VA(), x == apps(t, nm(T)))] +
               [Implies(And(kind(T) == OP(), lg.opplace(opp(T)) == S.const(k)), x == f(S, t, T, l, r)) for k, f in KINDS.items()])
def commas(t, T, n):
    """operands separated by commas"""
    return If(n == 0, t, appc(t, IntVal(44)))
def U_PRk(T, t):
    return And(PRk(t, T, IntVal(0)) == t, ForAll([i], Implies(And(0 <= i, i < nk(T)), PRk(t, T, i + 1) == PR(commas(PRk(t, T, i), T, i), kid(T, i), FALSE, FALSE)), patterns=[kid(T, i)]))
def shape(S, T):
    """what a well-formed expression tree is"""
    o = lg.opplace(opp(T)); P = lambda n: S.const('OP_PLACE_' + n)
    return shp(T) == And(wf(T), Implies(isop(T), And(Or([o == P(n) for n in ('PREFIX', 'POSTFIX', 'INFIX', 'FUNCTION')]),
        Implies(Or(o == P('PREFIX'), o == P('POSTFIX')), nk(T) == 1), Implies(o == P('INFIX'), nk(T) == 2),
        ForAll([i], Implies(And(0 <= i, i < nk(T)), shp(kid(T, i))), patterns=[kid(T, i)]))))
def arg(S, p):
    T = S.rotree(p); S.req(And(wf(T), shp(T)), 'well-formed expression')
    return T
def printer(nm_, text, place=None, f=None):
    @contract(nm_, FILE, props=['C04'], text=text, axioms=lambda: ax_plain(), norm_hooks=[open_ops], string_hook=name_hook, **TK)
    def g(S):
        t = SB(S, S.a[0])
        if nm_ == 'tree_append_to_strbuilder': node, color, l, r = S.a[1], S.a[2], FALSE, FALSE
        else:
            color, node = S.a[1], S.a[2]; l, r = (S.a[3], S.a[4]) if len(S.a) > 4 else (FALSE, FALSE)
        T = arg(S, node)
        if place: S.req(And(isop(T), lg.opplace(opp(T)) == S.const(place)), 'operator of this placement')
        if S.where == 'self':
            S.assume(shape(S, T))
            if S.valid(isop(T)) or S.branch(isop(T)):
                S.str(lg.opname(opp(T)), opstr(opp(T)))
                for x in (t, plain(t)): S.assume(U_PR(S, x, T, l, r)); S.assume(U_PR(S, x, T, FALSE, FALSE))
                for x in (t, plain(t)):
                    S.assume(U_PRk(T, appc(apps(x, name(T)), IntVal(40))))
            else:
                for x in (t, plain(t)): S.assume(U_PR(S, x, T, l, r))
            S.run.ghost['print'] = (T, color, appc(apps(t, name(T)), IntVal(40)), appc(apps(plain(t), name(T)), IntVal(40)))
        S.inv(printed); yield
        if S.inh:
            u = SB(S, S.a[0])
            S.assume(If(color, plain(u) == PR(plain(t), T, l, r), u == PR(t, T, l, r)))
        else:
            u = SB(S, S.a[0])
            S.req(If(color, plain(u) == PR(plain(t), T, l, r), u == PR(t, T, l, r)), 'the text is followed by the rendering of the tree (up to colours)')
def printed(L):
    g = L.run.ghost.get('print')
    if g is None: return []
    T, color, t, pt = g; fs = []
    for c in L.run.heap.values():
        if isinstance(c, PredC) and c.name == 'SB':
            u = c.args[0]
            for x in counters(L):
                for sep in (lambda v: v, lambda v: If(And(x > 0, x < nk(T)), appc(v, IntVal(44)), v)):
                    fs.append(If(color, plain(u) == sep(PRk(pt, T, x)), u == sep(PRk(t, T, x))))
    return fs
printer('prefix_to_str', 'operator in front of its operand, parentheses exactly where needed', 'OP_PLACE_PREFIX')
printer('postfix_to_str', 'operator behind its operand, parentheses exactly where needed', 'OP_PLACE_POSTFIX')
printer('infix_to_str', 'operator between its operands, parentheses exactly where needed', 'OP_PLACE_INFIX')
printer('function_to_str', 'name and operands separated by commas', 'OP_PLACE_FUNCTION')
printer('to_str', 'rendering of the tree; the tree is only read')
printer('tree_append_to_strbuilder', 'rendering of the tree; the tree is only read')
@contract('tree_to_str', FILE, props=['C04'], text='allocated text: the rendering of the tree, which is only read', axioms=lambda: ax_plain(), norm_hooks=[open_ops], **TK)
def tree_to_str(S):
    T = arg(S, S.a[0]); color = S.a[1]; yield
    v = S.str(S.ret, own=True); x = PR(sb0, T, FALSE, FALSE)
    S.req(If(color, plain(v) == x, v == x), 'rendering of the tree (up to colours)')

def shown(run, name, args):
    """printf("%s", text)"""
    from .string_builder import formatted
    S = Spec(run, run.frame().func, args, 'self'); S.mode = 'ex'
    run.ghost['shown'] = run.ghost.get('shown', ()) + (formatted(S, run.ghost.get('screen', sb0), args[0], args[1:]),)
@contract('print_tree', FILE, props=['C04'], text='shows the rendering of the tree, which is only read', axioms=lambda: ax_plain(), norm_hooks=[open_ops], out_hook=shown, **TK)
def print_tree(S):
    T = arg(S, S.a[0]); color = S.a[1]; yield
    if S.inh: return
    u = S.run.ghost.get('shown', ()); x = PR(sb0, T, FALSE, FALSE); v = S.fresh('text', Str)
    if len(u) != 1: S.req(FALSE, 'the text is shown once'); return
    S.req(Exists([t_], And(If(color, plain(t_) == x, t_ == x), u[0] == apps(sb0, t_))), 'the rendering of the tree is shown (up to colours)')
