"""Reading lines, dispatching them to commands, exit status (commands.c, console_util.c, command checks)."""
from .strings import *
from .strings import isstr
CU = 'src/util/console_util.c'; CC = 'src/client/commands/commands.c'; CD = 'src/client/commands/'
POS, N, E = ('gv', 'io:pos'), ('gv', 'io:n'), ('gv', 'io:E')      # ghosts: lines read, commands executed, their texts
raw = Function('rawline', I, I, Str)       # k-th line of a file, with its line end
nl = Function('numlines', I, I)
ln = Function('line', I, I, Str)           # k-th line without line end
okc = Function('okc', I, z3.BoolSort())    # the n-th executed command succeeded
qpos = Function('qpos', I, I, I)           # first quit line from a position on (or the number of lines)
cnt = Function('cntlines', I, I, I, I)     # number of lines to execute among lines [a, b)
cntn = Function('cntlinesn', I, I, I, I)
f_, a_ = Ints('f!c a!c'); k = Int('k!c')
def isq(s): return isstr(s, 'quit')
def skip(s): return Or(slen(s) == 0, sch(s, 0) == ord('#'))
def ax_io():
    r = raw(f_, k)
    return ax_str() + ax_cmp() + [
        ForAll([f_], And(nl(f_) >= 0, nl(f_) < 2**40), patterns=[nl(f_)]),
        ForAll([f_, k], Implies(And(0 <= k, k < nl(f_)), slen(r) > 0), patterns=[r]),
        ForAll([f_, k], ln(f_, k) == If(sch(r, slen(r) - 1) == 10, spre(r, slen(r) - 1), r), patterns=[ln(f_, k)]),
        ForAll([f_, a_], And(qpos(f_, a_) <= nl(f_), Implies(a_ <= nl(f_), qpos(f_, a_) >= a_), Implies(And(a_ <= qpos(f_, a_), qpos(f_, a_) < nl(f_)), isq(ln(f_, qpos(f_, a_))))), patterns=[qpos(f_, a_)]),
        ForAll([f_, a_, k], Implies(And(a_ <= k, k < qpos(f_, a_)), Not(isq(ln(f_, k)))), patterns=[z3.MultiPattern(qpos(f_, a_), ln(f_, k))]),
        ForAll([f_, a_], cnt(f_, a_, a_) == 0, patterns=[cnt(f_, a_, a_)]),
        ForAll([f_, a_, k], Implies(a_ <= k, And(cnt(f_, a_, k) >= 0, cntn(f_, a_, k) == cnt(f_, a_, k + 1), cntn(f_, a_, k) == cnt(f_, a_, k) + If(skip(ln(f_, k)), 0, 1))), patterns=[cntn(f_, a_, k)]),
    ]
def b_getline(self, a, ats, T, n):
    """getline with no buffer given: the next line, with its line end, in memory of its own; at the end of the file possibly a buffer that is to be freed"""
    self.e.notes.add('C library: getline (next line with its line end in allocated memory, EOF at the end of the file; lines contain no NUL)')
    p = self.load(self.resolve(a[0], PTR(CHAR))); self.prove(p == 0, 'getline allocates the line')
    lv = self.resolve(a[0], PTR(CHAR)); f = a[2]; pos = self.ghost[POS]
    q = self.fresh('linebuf', I); m = self.fresh('linesize', I); arr = self.fresh('linechars', z3.ArraySort(I, I)); i = Int('i!gl')
    self.assume(And(q >= 0, q < lg.PTRMAX, m > 0, m < 2**44))
    def mem():
        self.assume(q > 0)
        for c in list(self.heap.values()):
            if c.base is not None and not isinstance(c, SnapC): self.assume(c.base != q)
        self.assume(ForAll([i], And(Select(arr, i) >= -128, Select(arr, i) <= 127), patterns=[Select(arr, i)]))
        self.add(Blk(q, CHAR, m, arr)); self.add(Tok(q, m))
        self.store(lv, q)
    if self.branch(pos < nl(f)):
        r = raw(f, pos); self.ghost[POS] = lin_norm(pos + 1); mem()
        self.assume(And(m > slen(r), slen(r) > 0, ForAll([i], Implies(And(0 <= i, i <= slen(r)), Select(arr, i) == sch(r, i)), patterns=[Select(arr, i)])))
        self.ghost[('soa', arr.get_id(), IntVal(0).get_id())] = (arr, r)
        return slen(r)
    if self.branch(q != 0): mem()
    return IntVal(-1)
def gint(S, key, sort=I):
    """ghost value at this point"""
    run = S.run
    if S.where == 'self' and key not in run.ghost: run.ghost[key] = run.fresh(key[1], sort)
    return run.ghost[key]
def io(S, f):
    pos = gint(S, POS)
    S.req(And(0 <= pos, pos <= nl(f)), 'position in the file')
    return pos
def interactive(S):
    c = S.cell(S.glob('interactive'), BOOL, ro=True)
    S.req(to_int(c) == 0, 'non-interactive input'); return c
def line_read(S, f, out, pos):
    """post: the next line, or nothing at the end of the file"""
    run = S.run
    if S.inh: run.ghost[POS] = run.fresh('pos', I)
    new = run.ghost[POS]; ok = pos < nl(f)
    S.result(ok, 'a line is delivered exactly if there is one')
    if S.branch(ok):
        S.req(new == pos + 1, 'one line is read')
        q = S.cell(out, PTR(CHAR))
        if S.inh: S.assume(q > 0); S.str(q, ln(f, pos), own=True); return
        v = S.str(q, own=True); S.streq(v, ln(f, pos), 'the line without its line end')
    else:
        S.req(new == pos, 'nothing is read'); S.cell(out, PTR(CHAR), val=IntVal(0))
IOK = dict(props=['C17'], axioms=lambda: ax_io(), models={'getline': b_getline})
@contract('ask_input_getline', CU, text='the next line with exactly its characters, without the line end; false at the end of the file', **IOK)
def ask_input_getline(S):
    f, out = S.a[0], S.a[1]; interactive(S); pos = io(S, f); S.out(out, PTR(CHAR)); S.assume(ln(f, pos) == ln(f, pos)); yield
    line_read(S, f, out, pos)
@contract('ask_input', CU, text='the next line with exactly its characters, without the line end; false at the end of the file', **IOK)
def ask_input(S):
    f, out = S.a[0], S.a[1]; interactive(S); pos = io(S, f); S.out(out, PTR(CHAR)); yield
    line_read(S, f, out, pos)
@contract('is_interactive', CU, text='the interactive flag', props=['C17'])
def is_interactive(S):
    c = S.cell(S.glob('interactive'), BOOL, ro=True); yield
    S.result(to_bool(c) if not z3.is_bool(c) else c, 'flag')
@contract('set_interactive', CU, text='sets the flag, returns the old value', props=['C17'])
def set_interactive(S):
    c = S.cell(S.glob('interactive'), BOOL); yield
    S.result(to_bool(c), 'old value'); S.cell(S.glob('interactive'), BOOL, val=S.a[0])

# ---- commands
def failed_before(S):
    """the flag that remembers whether a command has failed, where the program has one"""
    if 'any_failed' not in S.run.prog.globals: return None
    return to_bool(S.cell(S.glob('any_failed'), BOOL))
def failed_after(S, b):
    """a command that succeeds leaves the flag, one that fails may set it"""
    if b is None: return None
    c = to_bool(S.cell(S.glob('any_failed'), BOOL))
    S.req(Implies(b, c), 'a failure is not forgotten'); S.req(Implies(c, Or(b, Not(to_bool(S.ret)))), 'a failure is remembered only if there was one')
    return c
def executed(S, s):
    """ghost: one more executed command with this text; its outcome"""
    run = S.run; n = run.ghost[N]
    run.ghost[E] = Store(run.ghost[E], n, s); run.ghost[N] = lin_norm(n + 1)
    S.assume(to_bool(S.ret) == okc(n))
DISPATCH = [('help', lambda s: Or(isstr(s, 'help'), isstr(s, 'help operators'), isstr(s, 'license')), lambda s: If(isstr(s, 'help'), 1, If(isstr(s, 'help operators'), 2, 3))),
            ('table', lambda s: pfx('table ', s), lambda s: IntVal(1)), ('definition', lambda s: contains(s, '='), lambda s: IntVal(1)),
            ('clear', lambda s: pfx('clear', s), lambda s: If(isstr(s, 'clear'), 1, 2)), ('load', lambda s: pfx('load ', s), lambda s: IntVal(1)), ('evaluation', lambda s: BoolVal(True), lambda s: IntVal(1))]
def pfx(t, s): return And([slen(s) >= len(t)] + [sch(s, i) == ord(c) for i, c in enumerate(t)])
def contains(s, t): return z3.Exists([k], And(0 <= k, k < slen(s), sch(s, k) == ord(t)))
def ax_dispatch():
    v = sfind(x_, y_)
    return ax_cmp() + ax_pfx() + [ForAll([x_, y_], Implies(v >= 0, fa(k_, 0, slen(y_), sch(x_, v + k_) == sch(y_, k_), [sch(y_, k_)])), patterns=[v]),
        ForAll([x_, y_, j_], Implies(And(v < 0, 0 <= j_, slen(y_) == 1, j_ < slen(x_)), sch(x_, j_) != sch(y_, 0)), patterns=[z3.MultiPattern(v, sch(x_, j_))])]
VERIFIED = {'clear': (['C14'], 'removes all definitions, or exactly the named one; an error and no change if there is none of this name')}
EXEC, EXEC_AX = {}, {}      # contracts of commands seen from inside (definition.py)
def check(name, recog, code):
    @contract('cmd_%s_check' % name, CD + 'cmd_%s.c' % name, props=['C17'], text='recognizes exactly its command', axioms=lambda: ax_dispatch())
    def g(S):
        s = S.str(S.a[0]); yield
        S.req((to_int(S.ret) != 0) == recog(s), 'recognizes its lines')
        S.req(Implies(to_int(S.ret) != 0, to_int(S.ret) == code(s)), 'code of the command')
    own = name in VERIFIED
    @contract('cmd_%s_exec' % name, CD + 'cmd_%s.c' % name, props=VERIFIED[name][0] if own else [], trusted=None if own else 'what a command does is the subject of other properties; here only that it is executed', text=VERIFIED[name][1] if own else 'executes the command', axioms=lambda: EXEC_AX[name]() if name in EXEC_AX else [])
    def h(S):
        if S.where == 'self': yield from EXEC[name](S); return
        s = S.str(S.a[0], ro=False); b = failed_before(S); yield
        failed_after(S, b)
        S.run.ghost['exec'] = S.run.ghost.get('exec', ()) + ((name, s, S.a[1], to_bool(S.ret)),)
        S.blk(S.a[0], CHAR, lin_norm(slen(s) + 1))
for d in DISPATCH: check(*d)

@contract('exec_command', CC, props=['C17', 'C14', 'C18'], text='exactly the first command that recognizes the line is executed, once, and its outcome is returned', axioms=lambda: ax_dispatch())
def exec_command(S):
    s = S.str(S.a[0], ro=False); b = failed_before(S); yield
    failed_after(S, b)
    S.blk(S.a[0], CHAR, lin_norm(slen(s) + 1))
    if S.inh: executed(S, s); return
    ev = S.run.ghost.get('exec', ())
    if len(ev) != 1: S.req(FALSE, 'exactly one command is executed'); return
    name, s2, code, ok = ev[0]; j = [d[0] for d in DISPATCH].index(name)
    S.req(s2 == s, 'the command gets the line')
    for d in DISPATCH[:j]: S.req(Not(d[1](s)), 'no earlier command recognizes the line')
    S.req(DISPATCH[j][1](s), 'the command recognizes the line'); S.req(code == DISPATCH[j][2](s), 'code of the command')
    S.result(ok, 'outcome of the command')

def trace(R, f, p0, pos, n, EE, res, at):
    """commands executed so far are exactly the lines to execute among [p0, pos), in order; res: all succeeded"""
    fs = [And(p0 <= pos, pos <= nl(f)), fa(k, p0, pos, Not(isq(ln(f, k))), [ln(f, k)]), n == cnt(f, p0, pos), n >= 0, cntn(f, p0, pos) == cnt(f, p0, pos + 1),
          fa(k, p0, pos, And(0 <= cnt(f, p0, k), Implies(Not(skip(ln(f, k))), And(cnt(f, p0, k) < n, Select(EE, cnt(f, p0, k)) == ln(f, k)))), [cnt(f, p0, k)])]
    if res is not None: fs.append(to_bool(res) == fa(k, 0, n, okc(k), [okc(k)]))
    return fs
LAB = ['position in the file', 'no quit line was passed', 'number of executed lines', 'number of executed lines', 'number of executed lines', 'exactly the lines to execute were executed, in order', 'success exactly if no command failed']
def exit_hook(run, args):
    f, p0 = run.ghost['io:f']; pos, n, EE = run.ghost[POS], run.ghost[N], run.ghost[E]
    run.assume(And(ln(f, pos - 1) == ln(f, pos - 1), cntn(f, p0, pos - 1) == cnt(f, p0, pos)))
    run.prove(isq(ln(f, pos - 1)), 'exit at a quit line only')
    b = run.ghost['io:failed']
    for lab, g in zip(LAB, trace(None, f, p0, lin_norm(pos - 1), n, EE, None if b is not None else args[0] == 0, 0)): run.prove(g, 'at exit: ' + lab)
    if b is not None: run.prove((args[0] == 0) == And(Not(b), fa(k, 0, n, okc(k), [okc(k)])), 'at exit: success exactly if no command failed, here or before')
@contract('process_input', CC, text='executes every line that is neither empty nor a comment, in order, up to the first quit line; success exactly if no command failed', props=['C17'], axioms=lambda: ax_io(), exit_hook=exit_hook, budget=240)
def process_input(S):
    f = S.a[0]; interactive(S); p0 = io(S, f); b = failed_before(S)
    if S.where == 'self':
        S.run.ghost['io:failed'] = b
        S.run.ghost[N] = IntVal(0); S.run.ghost[E] = S.run.fresh('E', z3.ArraySort(I, Str)); S.run.ghost['io:f'] = (f, p0)
    def inv(L):
        g = L.run.ghost; fs = []
        for q in sorted(L.cur, key=str):
            if q in L.plan and q[0] == 'env' and L.cur[q] is not None and (z3.is_bool(L.cur[q]) or L.cur[q].sort() == I): fs += trace(None, f, p0, g[POS], g[N], g[E], L.cur[q], 0)
        if b is not None:
            for c in L.run.heap.values():
                if isinstance(c, Obj) and c.base is not None and c.base.eq(S.glob('any_failed')): fs.append(to_bool(c.val) == Or(b, Not(fa(k, 0, g[N], okc(k), [okc(k)]))))
        return fs + trace(None, f, p0, g[POS], g[N], g[E], None, 0)
    S.inv(inv)
    yield
    if b is not None: af = to_bool(S.cell(S.glob('any_failed'), BOOL))
    if S.inh: return
    g = S.run.ghost
    S.req(g[POS] == nl(f), 'the whole file is read')
    for lab, x in zip(LAB, trace(None, f, p0, g[POS], g[N], g[E], S.ret, 0)): S.req(x, lab)
    if b is not None: S.req(af == Or(b, Not(to_bool(S.ret))), 'the failure of a command is remembered')
