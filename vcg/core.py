"""Symbolic execution of clang ASTs with contracts: generates and discharges proof obligations.

Replay-based path exploration (each path is executed from the function entry under a decision
trace), a separation-style heap of chunks, modular calls through contracts, loops through
inductive invariants found by pruning candidate sets (Houdini)."""
import time, os
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, Int, BoolVal, ForAll, K
from .cast import *
from . import logic as lg
from .logic import I, B, D, Tree, Str, Snap

class PathDone(Exception): pass          # path ends silently (covered elsewhere / infeasible / noreturn)
class PathStuck(Exception): pass         # an obligation failed in a way that the path cannot go on
class BreakX(Exception): pass
class ContX(Exception): pass
class RetX(Exception):
    def __init__(s, v): s.v = v
class GotoX(Exception):
    def __init__(s, l): s.l = l

TRUE, FALSE = BoolVal(True), BoolVal(False)
RM = z3.RNE()

# ------------------------------------------------------------------ values
class AV:      # array value: elements of type T, count n (int or z3), tree: lifted element value
    __slots__ = ('T', 'n', 'tree')
    def __init__(s, T, n, tree): s.T, s.n, s.tree = T, n, tree
class FnRef:
    def __init__(s, fn): s.fn = fn
class VaList:
    def __init__(s, args): s.args = args; s.pos = 0

def vmap(v, f):
    if isinstance(v, dict): return {k: vmap(x, f) for k, x in v.items()}
    if isinstance(v, AV): return AV(v.T, v.n, vmap(v.tree, f))
    if isinstance(v, (FnRef, VaList)) or v is None: return v
    return f(v)
def vzip(a, b, f):
    if isinstance(a, dict): return {k: vzip(a[k], b[k], f) for k in a}
    if isinstance(a, AV): return AV(a.T, a.n, vzip(a.tree, b.tree, f))
    if isinstance(b, (FnRef, VaList)) or isinstance(a, (FnRef, VaList)) or a is None or b is None: return b
    return f(a, b)
def vleaves(v):
    if isinstance(v, dict):
        for x in v.values(): yield from vleaves(x)
    elif isinstance(v, AV): yield from vleaves(v.tree)
    elif isinstance(v, (FnRef, VaList)) or v is None: return
    else: yield v
def vsame(a, b):
    if type(a) is not type(b) and not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)): return False
    if isinstance(a, dict): return all(vsame(a[k], b[k]) for k in a)
    if isinstance(a, AV): return vsame(a.tree, b.tree)
    if isinstance(a, FnRef): return a.fn is b.fn
    if isinstance(a, VaList): return a is b
    if a is None: return b is None
    return a.eq(b)

def to_bool(v):
    if z3.is_bool(v): return v
    if z3.is_fp(v): return Not(z3.fpIsZero(v))
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
        a, b = v.arg(1).as_long(), v.arg(2).as_long()
        if a != 0 and b == 0: return v.arg(0)
        if a == 0 and b != 0: return Not(v.arg(0))
    return z3.simplify(v != 0)
def to_int(v):
    if z3.is_bool(v):
        if z3.is_true(v): return IntVal(1)
        if z3.is_false(v): return IntVal(0)
        return If(v, IntVal(1), IntVal(0))
    return v

# ------------------------------------------------------------------ linear forms of addresses
class Lin:
    cache = {}
    @staticmethod
    def of(e):
        k = e.get_id()
        r = Lin.cache.get(k)
        if r is None or not r[0].eq(e):
            r = (e, Lin._of(e)); Lin.cache[k] = r
        return r[1]
    @staticmethod
    def _of(e):
        if z3.is_int_value(e): return ({}, e.as_long())
        kd = e.decl().kind() if z3.is_app(e) else None
        if kd == z3.Z3_OP_ADD:
            d, c = {}, 0
            for x in e.children():
                d2, c2 = Lin.of(x); c += c2
                for k, (t, co) in d2.items():
                    d[k] = (t, d.get(k, (t, 0))[1] + co)
            return ({k: v for k, v in d.items() if v[1] != 0}, c)
        if kd == z3.Z3_OP_SUB:
            d, c = Lin.of(e.arg(0)); d = dict(d)
            for x in e.children()[1:]:
                d2, c2 = Lin.of(x); c -= c2
                for k, (t, co) in d2.items(): d[k] = (t, d.get(k, (t, 0))[1] - co)
            return ({k: v for k, v in d.items() if v[1] != 0}, c)
        if kd == z3.Z3_OP_UMINUS:
            d, c = Lin.of(e.arg(0)); return ({k: (t, -co) for k, (t, co) in d.items()}, -c)
        if kd == z3.Z3_OP_MUL and len(e.children()) == 2:
            a, b = Lin.of(e.arg(0)), Lin.of(e.arg(1))
            if not a[0]: a, b = b, a
            if not b[0]: return ({k: (t, co * b[1]) for k, (t, co) in a[0].items() if co * b[1] != 0}, a[1] * b[1])
            out = {}
            def put(t, co):
                k = t.get_id(); o = out.get(k, (t, 0)); out[k] = (o[0], o[1] + co)
            for t1, c1 in a[0].values():
                for t2, c2 in b[0].values(): put(Lin.mono(Lin.factors(t1) + Lin.factors(t2)), c1 * c2)
                if b[1]: put(t1, c1 * b[1])
            if a[1]:
                for t2, c2 in b[0].values(): put(t2, c2 * a[1])
            return ({k: v for k, v in out.items() if v[1] != 0}, a[1] * b[1])
        return ({e.get_id(): (e, 1)}, 0)
    @staticmethod
    def factors(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            r = []
            for x in t.children(): r += Lin.factors(x)
            return r
        return [t]
    monos = {}
    @staticmethod
    def mono(fs):
        fs = sorted(fs, key=lambda x: x.get_id()); k = tuple(x.get_id() for x in fs)
        r = Lin.monos.get(k)
        if r is None:
            r = fs[0]
            for x in fs[1:]: r = r * x
            Lin.monos[k] = r
        return r
    @staticmethod
    def sub(a, b):
        d, c = dict(a[0]), a[1] - b[1]
        for k, (t, co) in b[0].items(): d[k] = (t, d.get(k, (t, 0))[1] - co)
        return ({k: v for k, v in d.items() if v[1] != 0}, c)
    @staticmethod
    def term(l):
        ts = [t if co == 1 else IntVal(co) * t for t, co in l[0].values()]
        if l[1] != 0 or not ts: ts.append(IntVal(l[1]))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
def lin_norm(e): return Lin.term(Lin.of(e))

# ------------------------------------------------------------------ chunks
class Obj:    # one value of type T at base
    def __init__(s, base, T, val, origin='heap', ro=False): s.base, s.T, s.val, s.origin, s.ro = base, T, val, origin, ro
    def copy(s): return Obj(s.base, s.T, s.val, s.origin, s.ro)
class Blk:    # n values of type T from base on
    def __init__(s, base, T, n, tree, origin='heap', ro=False): s.base, s.T, s.n, s.tree, s.origin, s.ro = base, T, n, tree, origin, ro
    def copy(s): return Blk(s.base, s.T, s.n, s.tree, s.origin, s.ro)
class Raw:    # untyped fresh memory
    def __init__(s, base, size, zero=False): s.base, s.size, s.zero = base, size, zero
    def copy(s): return Raw(s.base, s.size, s.zero)
class Tok:    # obligation/permission to free the block at base
    def __init__(s, base, size): s.base, s.size = base, size
    def copy(s): return Tok(s.base, s.size)
class TreeC:  # owned closed tree
    def __init__(s, p, T, snap): s.base, s.T, s.snap = p, T, snap
    def copy(s): return TreeC(s.base, s.T, s.snap)
class OpenC:  # owned operator node whose operand slots are accessible
    def __init__(s, p, tok, opp, n, PA, KT, snap, holes=()): s.base, s.tok, s.opp, s.n, s.PA, s.KT, s.snap, s.holes = p, tok, opp, n, PA, KT, snap, list(holes)
    def copy(s): return OpenC(s.base, s.tok, s.opp, s.n, s.PA, s.KT, s.snap, s.holes)
class SnapC:  # readable snapshot (borrowed, not modifiable)
    def __init__(s, snap): s.snap = snap; s.base = None
    def copy(s): return SnapC(s.snap)
class StrC:   # NUL terminated string of value sv at base (owned cells [0..len])
    def __init__(s, base, sv, ro=True): s.base, s.sv, s.ro = base, sv, ro
    def copy(s): return StrC(s.base, s.sv, s.ro)
class SeqC:   # n separately allocated blocks, the i-th at address A[i] (P is the inverse of A); each: a header of type T, then es bytes of payload
    def __init__(s, key, T, es, n, A, P, tree): s.key, s.T, s.es, s.n, s.A, s.P, s.tree = key, T, es, n, A, P, tree; s.base = None; s.ro = False; s.origin = 'heap'
    def copy(s): return SeqC(s.key, s.T, s.es, s.n, s.A, s.P, s.tree)
class RegC:   # set N of separately allocated elements; tree: element value by address. T: header type of each element (then es bytes of payload), None: strings / trees
    def __init__(s, kind, key, T, es, N, tree, ro=False, taken=()): s.kind, s.key, s.T, s.es, s.N, s.tree, s.ro, s.taken = kind, key, T, es, N, tree, ro, list(taken); s.base = None; s.origin = 'heap'
    def copy(s): return RegC(s.kind, s.key, s.T, s.es, s.N, s.tree, s.ro, s.taken)
class PredC:  # abstract resource
    def __init__(s, name, base, args, ro=False): s.name, s.base, s.args, s.ro = name, base, args, ro
    def copy(s): return PredC(s.name, s.base, list(s.args), s.ro)

class LVc:
    def __init__(s, cid, path, T): s.cid, s.path, s.T = cid, path, T
class LVt:    # field of a tree node
    def __init__(s, p, field, idx, T, off): s.p, s.field, s.idx, s.T, s.off = p, field, idx, T, off
class LVs:    # character of a string chunk; or of a snapshot string
    def __init__(s, base, idx, sv, ro): s.base, s.idx, s.sv, s.ro, s.T = base, idx, sv, ro, CHAR
class LVop:   # shared operator record
    def __init__(s, p, field, T): s.p, s.field, s.T = p, field, T
class LVfn:
    def __init__(s, fn): s.fn = fn; s.T = ('fn',)

NODE_RECS = ('Node', 'OperatorNode', 'ConstantNode', 'VariableNode')
PROJ = {'type': (lg.kind, None), 'token_index': (lg.tok, None), 'op': (lg.opp, 'OP'), 'num_children': (lg.nk, 'OP'),
        'const_value': (lg.cval, 'CONST'), 'id': (lg.vid, 'VAR')}
OPF = {'id': lg.opid, 'arity': lg.oparity, 'precedence': lg.opprec, 'assoc': lg.opassoc, 'placement': lg.opplace, 'name': lg.opname}

class Obligation:
    __slots__ = ('func', 'label', 'line', 'status', 'time', 'detail', 'backend', 'n')
    def __init__(s, func, label, line): s.func, s.label, s.line = func, label, line; s.status = None; s.time = 0; s.detail = ''; s.backend = 'z3'; s.n = 0

_hasq = {}
def hasq(e):
    r = _hasq.get(e.get_id())
    if r is None or not r[1].eq(e):
        seen = set(); st = [e]; q = False
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): q = True; break
            st.extend(x.children())
        r = _hasq[e.get_id()] = (q, e)
    return r[0]
_funs = {}
def funs(e):
    """uninterpreted functions in a formula"""
    r = _funs.get(e.get_id())
    if r is None or not r[1].eq(e):
        seen = set(); st = [e]; q = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: q.add(x.decl().name())
            st.extend(x.children())
        r = _funs[e.get_id()] = (q, e)
    return r[0]
class Engine:
    macros = {}; recinv = {}
    """verification of one function"""
    def __init__(self, prog, contracts, c, tmo=6000, budget=150):
        self.prog, self.contracts, self.fname = prog, contracts, c.name
        self.func = c.fn; self.c = c
        self.obls = {}           # (label,line,ctx) -> Obligation
        self.pcintern = {}; self.cache = {}
        self.tmo = tmo; self.deadline = time.time() + budget
        self.solver = z3.Solver()
        for k, v in (('auto_config', False), ('smt.mbqi', False), ('smt.random_seed', 1)): self.solver.set(k, v)
        for a in lg.base_axioms(): self.solver.add(a)
        for a in self.c.axioms(): self.solver.add(a)
        self.stack = []; self.qf = z3.Solver(); self.qfstack = []; self.qfcache = {}
        self.stime = 0.0; self.queries = 0; self.paths = 0; self.completed = 0
        self.invcache = {}
        self.want_model = False; self.retries = 6; self.pre_ok = False; self.loops_done = {}
        self.called = set(); self.inlined = set(); self.notes = set()

    # -- solver
    def sync(self, pc):
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]: n += 1
        if len(self.stack) > n:
            self.solver.pop(len(self.stack) - n); del self.stack[n:]
        for e in pc[n:]:
            self.solver.push(); self.solver.add(e); self.stack.append(e)
    def narrow(self, pc, goal):
        """quantified goals: first with the quantified facts about the same functions only"""
        if not hasq(goal): return False
        fs = funs(goal)
        if not fs: return False
        t = time.time(); s = z3.Solver()
        for k, v in (('auto_config', False), ('smt.mbqi', False), ('timeout', 400)): s.set(k, v)
        for e in pc:
            if not hasq(e) or fs & funs(e): s.add(e)
        s.add(Not(goal)); r = s.check() == z3.unsat
        self.stime += time.time() - t; self.queries += 1
        return r
    def quick(self, pc, pcid, extra):
        """True if the facts without quantifiers already contradict extra"""
        key = (pcid, extra.get_id()); r = self.qfcache.get(key)
        if r is not None and r[0].eq(extra): return r[1]
        if hasq(extra): return False
        t = time.time(); st = self.qfstack; n = 0
        while n < len(st) and n < len(pc) and st[n] is pc[n]: n += 1
        if len(st) > n: self.qf.pop(len(st) - n); del st[n:]
        for e in pc[n:]:
            self.qf.push(); st.append(e)
            if not hasq(e): self.qf.add(e)
        self.qf.push(); self.qf.add(extra); self.qf.set('timeout', 300); res = self.qf.check() == z3.unsat; self.qf.pop()
        self.qfcache[key] = (extra, res); self.stime += time.time() - t
        return res
    def check(self, pc, pcid, extra, tmo):
        key = (pcid, extra.get_id())
        r = self.cache.get(key)
        if r is not None and r[2].eq(extra) and (r[0] != z3.unknown or r[3] >= tmo): return r
        if time.time() > self.deadline: raise Unsupported('time budget of function exhausted')
        self.sync(pc)
        t = time.time()
        self.solver.push(); self.solver.add(extra); self.solver.set('timeout', tmo)
        r = self.solver.check()
        det = ''
        if r == z3.unknown: det = self.solver.reason_unknown()
        if self.want_model and (r == z3.sat or (r == z3.unknown and 'incomplete' in det)):
            try: det = det + ' model:' + self.model_text()
            except z3.Z3Exception: pass
        self.solver.pop()
        self.stime += time.time() - t; self.queries += 1
        res = (r, det, extra, tmo)
        self.cache[key] = res
        return res
    def pieces(self, g):
        """the goal, conjunct by conjunct (also below quantifiers and implications), each under the previous ones"""
        if z3.is_and(g):
            r = []
            for j, x in enumerate(g.children()):
                for y in self.pieces(x): r.append(Implies(And(g.children()[:j]), y) if j else y)
            return r
        if z3.is_implies(g): return [Implies(g.arg(0), x) for x in self.pieces(g.arg(1))]
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.FreshConst(g.var_sort(j), 'sk') for j in range(g.num_vars())]
            return self.pieces(z3.substitute_vars(g.body(), *reversed(vs)))
        return [g]
    def split(self, pc, pcid, goal):
        ps = self.pieces(goal)
        if len(ps) < 2 or len(ps) > 40: return None
        for x in ps:
            if self.check(pc, pcid, Not(x), self.tmo)[0] != z3.unsat: return None
        return (z3.unsat, '')
    def again(self, pc, extra):
        """an obligation that was not discharged is tried again from scratch (the answer depends on the solver's state)"""
        if self.retries <= 0: return None
        self.retries -= 1
        t = time.time()
        for opt in ({}, {'smt.relevancy': 0}, {'smt.random_seed': 7}):
            s = z3.Solver()
            for k, v in (('auto_config', False), ('smt.mbqi', False), ('smt.random_seed', 1)): s.set(k, v)
            for k, v in opt.items(): s.set(k, v)
            s.set('timeout', self.tmo)
            for a in lg.base_axioms(): s.add(a)
            for a in self.c.axioms(): s.add(a)
            for x in pc: s.add(x)
            s.add(extra); self.queries += 1
            if s.check() == z3.unsat: self.stime += time.time() - t; self.retries += 1; return (z3.unsat, '')
        self.stime += time.time() - t
    def model_text(self):
        m = self.solver.model(); out = []
        for d in m.decls():
            if d.arity() == 0 and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT, z3.Z3_FLOATING_POINT_SORT):
                out.append('%s=%s' % (d.name(), m[d]))
            if len(out) > 25: break
        return ' '.join(out)

    # -- exploration
    def explore(self, mk, limit=4000):
        """mk(run) executes one path; explores all decision traces"""
        work = [()]
        n = 0
        while work:
            tr = work.pop()
            n += 1
            if n > limit: raise Unsupported('too many paths')
            run = Run(self, tr, work)
            yield run, mk
    def verify(self):
        reached = 0
        work = [()]
        npath = 0
        while work:
            tr = work.pop(); npath += 1
            if npath > 3000: raise Unsupported('too many paths')
            run = Run(self, tr, work); self.cur = run
            try:
                run.verify_path()
                reached += 1
            except PathDone: pass
            except PathStuck: pass
        self.paths = npath; self.completed = reached
        return self

class State: pass

class Run:
    def __init__(self, eng, trace, work):
        self.e = eng; self.prog = eng.prog
        self.trace = trace; self.work = work; self.pos = 0
        self.pc = []; self.pcid = 0
        self.heap = {}; self.nc = 0; self.nfresh = 0
        self.frames = []
        self.mode = 'main'; self.soft = None
        self.loopdepth = 0
        self.globals = {}
        self.curline = None
        self.ghost = {}
        self.decs = []

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if z3.is_true(c): return
        if z3.is_and(c):
            for x in c.children(): self.assume(x)
            return
        k = (self.pcid, c.get_id())
        nx = self.e.pcintern.get(k)
        if nx is None or not nx[1].eq(c):
            nx = (len(self.e.pcintern) + 1, c); self.e.pcintern[k] = nx
        self.pcid = nx[0]; self.pc.append(nx[1])
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)
    def valid(self, c, tmo=None):
        c = z3.simplify(c) if z3.is_bool(c) else c
        if z3.is_true(c): return True
        if z3.is_false(c): return self.e.check(self.pc, self.pcid, TRUE, 500)[0] == z3.unsat
        if self.e.quick(self.pc, self.pcid, Not(c)): return True
        return self.e.check(self.pc, self.pcid, Not(c), tmo or 1500)[0] == z3.unsat
    def feasible(self, c):
        if self.e.quick(self.pc, self.pcid, c): return False
        return self.e.check(self.pc, self.pcid, c, 200)[0] != z3.unsat
    def prove(self, goal, label, line=None, treeeq=None):
        """proof obligation; goes on under the assumption of the goal"""
        line = line or self.curline
        key = (label, line)
        if self.mode == 'soft':   # obligations of Houdini rounds are not recorded
            self.assume(goal); return True
        o = self.e.obls.get(key)
        if o is None:
            o = Obligation(self.e.fname, label, line); self.e.obls[key] = o; o.status = 'proved'
        t0 = self.e.stime; self.e.want_model = True
        if z3.is_true(goal): r = (z3.unsat, '')
        else:
            g = z3.simplify(goal)
            if z3.is_true(g): r = (z3.unsat, '')
            else:
                r = self.e.check(self.pc, self.pcid, Not(goal), min(self.e.tmo, 500))
                if r[0] == z3.unknown: r = (z3.unsat, '') if self.e.narrow(self.pc, goal) else self.e.check(self.pc, self.pcid, Not(goal), self.e.tmo) if 'incomplete' not in r[1] else r
                if r[0] != z3.unsat and not z3.is_false(g): r = self.e.split(self.pc, self.pcid, goal) or self.e.again(self.pc, Not(goal)) or r
        o.n += 1; self.e.want_model = False
        o.time += self.e.stime - t0
        if r[0] == z3.unsat: pass
        elif r[0] == z3.sat or 'incomplete' in r[1]:
            if os.environ.get('VCG_PC'): print('FAILED', label, 'PC:'); [print('   ', str(x)[:300]) for x in self.pc]
            o.status = 'failed'; o.detail = ('loop ' if self.loopdepth or self.ghost.get('inloop') else '') + r[1][:1500] + ' goal:' + str(goal)[:600]
        else:
            if o.status == 'proved': o.status = 'undecided'; o.detail = r[1][:300]
        if r[0] != z3.unsat and not z3.is_false(z3.simplify(goal)): self.assume(goal)
        elif r[0] != z3.unsat: raise PathStuck()
        else: self.assume(goal)
        return r[0] == z3.unsat
    def branch(self, c):
        c = to_bool(c) if not z3.is_bool(c) else c
        cs = z3.simplify(c)
        if z3.is_true(cs): return True
        if z3.is_false(cs): return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]; self.pos += 1
            self.assume(c if d else z3.simplify(Not(c))); return d
        if self.e.quick(self.pc, self.pcid, Not(c)): ft, ff = True, False
        elif self.e.quick(self.pc, self.pcid, c): ft, ff = False, True
        else: ft, ff = self.feasible(c), self.feasible(Not(c))
        if not ft and not ff: raise PathDone()
        if ft != ff:
            self.trace = self.trace + (ft,); self.pos += 1
            self.assume(c if ft else z3.simplify(Not(c))); return ft
        self.work.append(self.trace + (False,))
        self.trace = self.trace + (True,); self.pos += 1
        self.assume(c); return True
    def choose(self, n, tag=''):
        """nondeterministic choice among n alternatives"""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]; self.pos += 1; return d
        for i in range(1, n): self.work.append(self.trace + (i,))
        self.trace = self.trace + (0,); self.pos += 1
        return 0

    # ---------------------------------------------------------------- heap
    def add(self, c):
        self.nc += 1; self.heap[self.nc] = c; return self.nc
    def sort_of(self, T):
        if T[0] in ('int', 'ptr', 'fn'): return I
        if T[0] == 'bool': return I
        if T[0] == 'double': return D
        if T[0] == 'blob': return lg.Blob
        raise Unsupported('sort of %r' % (T,))
    def fresh_val(self, T, name='v', lift=0, assume=True):
        k = T[0]
        if k == 'rec':
            return {f: self.fresh_val(ft, name + '.' + f, lift, assume) for f, ft in self.prog.fields(T[1]) if not (ft[0] == 'arr' and ft[2] is None)}
        if k == 'arr':
            return AV(T[1], T[2], self.fresh_val(T[1], name, lift + 1, assume))
        s = self.sort_of(T)
        for _ in range(lift): s = z3.ArraySort(I, s)
        v = self.fresh(name, s)
        if assume:
            if lift == 0: 
                rc = self.range_of(v, T)
                if rc is not None: self.assume(rc)
            elif lift == 1:
                i = Int('i!r'); rc = self.range_of(Select(v, i), T)
                if rc is not None: self.assume(ForAll([i], rc, patterns=[Select(v, i)]))
            elif lift == 2:
                i, j = z3.Ints('i!r j!r'); rc = self.range_of(Select(Select(v, i), j), T)
                if rc is not None: self.assume(ForAll([i, j], rc, patterns=[Select(Select(v, i), j)]))
        return v
    def range_of(self, v, T):
        if T[0] == 'int':
            b, s = T[1], T[2]
            return And(v >= -2**(b-1), v < 2**(b-1)) if s else And(v >= 0, v < 2**b)
        if T[0] == 'bool': return And(v >= 0, v <= 1)
        if T[0] in ('ptr', 'fn'): return And(v >= 0, v < lg.PTRMAX)
        return None
    def zero_val(self, T):
        k = T[0]
        if k == 'rec': return {f: self.zero_val(ft) for f, ft in self.prog.fields(T[1]) if not (ft[0] == 'arr' and ft[2] is None)}
        if k == 'arr': return AV(T[1], T[2], vmap(self.zero_val(T[1]), lambda x: K(I, x)))
        if k == 'double': return z3.FPVal(0.0, D)
        return IntVal(0)
    def const_lift(self, v): return vmap(v, lambda x: K(I, x))

    def path_at(self, T, off, want, soft=False):
        """path from type T to a subobject of type want at byte offset off"""
        if off == 0 and self.same_type(T, want): return []
        if T[0] == 'rec':
            lay, _ = self.prog.layout(T[1])
            for f, (o, ft) in lay.items():
                sz = self.prog.size(ft)
                if o <= off and (off < o + sz):
                    r = self.path_at(ft, off - o, want)
                    if r is not None: return [('f', f)] + r
        if T[0] == 'arr':
            es = self.prog.size(T[1])
            r = self.path_at(T[1], off % es, want)
            if r is not None: return [('i', IntVal(off // es))] + r
        return None
    def same_type(self, a, b):
        if a == b: return True
        if a[0] == 'ptr' and b[0] == 'ptr': return True
        if a[0] == 'int' and b[0] == 'int': return a[1] == b[1]
        if a[0] in ('int', 'bool') and b[0] in ('int', 'bool'): return self.prog.size(a) == self.prog.size(b)
        if a[0] == 'fn' and b[0] == 'ptr' or a[0] == 'ptr' and b[0] == 'fn': return True
        return False

    def nonnull(self, addr, what='pointer'):
        a = z3.simplify(addr)
        if z3.is_int_value(a) and a.as_long() == 0:
            self.prove(FALSE, 'dereferenced pointer is not NULL'); raise PathStuck()
        self.prove(addr != 0, 'dereferenced pointer is not NULL')

    def resolve(self, addr, T, quiet=False):
        """lvalue of type T at address addr"""
        addr = lin_norm(addr)
        if z3.is_int_value(addr) and addr.as_long() == 0:
            if quiet: return None
            self.prove(FALSE, 'dereferenced pointer is not NULL'); raise PathStuck()
        r = self._resolve(addr, T)
        if r is not None: return r
        if quiet: return None
        r0 = self.e.check(self.pc, self.pcid, addr == 0, 1500)
        if r0[0] != z3.unsat:
            self.prove(addr != 0, 'dereferenced pointer is not NULL')
            r = self._resolve(addr, T)
            if r is not None: return r
        r = self._resolve_sem(addr, T)
        if r is not None: return r
        raise Unsupported('no memory known at %s (type %s) line %s' % (str(addr)[:80], T, self.curline))

    def _resolve(self, addr, T):
        la = Lin.of(addr)
        if T[0] == 'rec' and T[1] in NODE_RECS:
            # explicit object (fresh allocation) first
            for cid, c in self.heap.items():
                if isinstance(c, (Obj, Raw)) and not Lin.sub(la, Lin.of(c.base))[0] and Lin.sub(la, Lin.of(c.base))[1] == 0:
                    break
            else:
                return LVt(addr, None, None, T, 0)
        raws = []
        for cid, c in list(self.heap.items()):
            if isinstance(c, Obj):
                d = Lin.sub(la, Lin.of(c.base))
                if d[0]: 
                    # symbolic index into an array inside of the object
                    if self.shares(d, c.base): continue
                    r = self.sym_path(c.T, d, T)
                    if r is not None and not self.foreign(d): return LVc(cid, r, T)
                    continue
                p = self.path_at(c.T, d[1], T) if d[1] >= 0 else None
                if p is not None: return LVc(cid, p, T)
                if d[1] == 0 and c.T[0] == 'rec' and T[0] == 'rec' and c.T[1] in NODE_RECS and T[1] in NODE_RECS:
                    # same allocation seen through another node type: header prefix
                    return LVc(cid, [('cast', T)], T)
                if d[1] >= 0 and T[0] == 'rec':
                    pf = self.prefix_path(c.T, d[1], T)
                    if pf is not None: return LVc(cid, pf, T)
            elif isinstance(c, Blk):
                d = Lin.sub(la, Lin.of(c.base))
                r = self.blk_path(c, d, T)
                if r is not None: return LVc(cid, r, T)
            elif isinstance(c, StrC) and T == CHAR:
                d = Lin.sub(la, Lin.of(c.base))
                if not self.shares(d, c.base) and not self.foreign(d): return LVs(c.base, Lin.term(d), c.sv, c.ro)
            elif isinstance(c, OpenC) and T[0] == 'ptr':
                d = Lin.sub(la, Lin.of(c.base))
                if self.shares(d, c.base) or self.foreign(d): continue
                off = self.node_off('OperatorNode', 'children')
                d = (d[0], d[1] - off)
                if all(co % 8 == 0 for _, co in d[0].values()) and d[1] % 8 == 0:
                    idx = Lin.term(({k: (t, co // 8) for k, (t, co) in d[0].items()}, d[1] // 8))
                    return LVt(c.base, 'children', idx, T, off)
            elif isinstance(c, Raw):
                d = Lin.sub(la, Lin.of(c.base))
                if not self.shares(d, c.base) and not self.foreign(d): raws.append((cid, c, d))
        for cid, c, d in raws:
            r = self.type_raw(cid, c, d, T)
            if r: return self._resolve(addr, T)
        for cid, c in self.heap.items():
            if isinstance(c, SeqC):
                r = self.seq_path(c, la, T)
                if r is not None: return LVc(cid, r, T)
            elif isinstance(c, RegC) and c.T is not None:
                r = self.reg_path(c, la, T)
                if r is not None: return LVc(cid, r, T)
        # closed tree: slot of an operand
        if T[0] == 'ptr':
            off = self.node_off('OperatorNode', 'children')
            for cid, c in list(self.heap.items()):
                if isinstance(c, TreeC):
                    d = Lin.sub(la, Lin.of(c.base))
                    if self.shares(d, c.base) or self.foreign(d): continue
                    d = (d[0], d[1] - off)
                    if all(co % 8 == 0 for _, co in d[0].values()) and d[1] % 8 == 0:
                        idx = Lin.term(({k: (t, co // 8) for k, (t, co) in d[0].items()}, d[1] // 8))
                        return LVt(c.base, 'children', idx, T, off)
            # slot inside of a readable snapshot: &node->children[i]
            r = self.split_slot(la, off)
            if r is not None: return LVt(r[0], 'children', r[1], T, off)
        if T[0] == 'rec' and T[1] == 'Operator': return LVop(addr, None, T)
        if T[0] in ('int', 'ptr') :
            # fields of shared operator records reached through a plain pointer are not used
            pass
        if T == CHAR:
            r = self.snap_string(addr, la)
            if r is not None: return r
        # symbolic equality with a chunk base through the path condition happens in _resolve_sem
        return None

    def seq_index(self, c, t):
        """index of the block of c at address t"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(c.A):
            j = t.arg(1)
            if self.valid(And(0 <= j, j < c.n)): return j
        j = Select(c.P, t)
        if self.valid(And(0 <= j, j < c.n, Select(c.A, j) == t)): return j
        return None
    def seq_path(self, c, la, T):
        hs = self.prog.layout(c.T[1])[1]
        for k, (t, co) in la[0].items():
            if co != 1 or len(la[0]) != 1 or la[1] < 0: continue
            off = la[1]
            sub = None
            if off < hs:
                sub = self.path_at(c.T, off, T)
                if sub is None: continue
            elif off >= hs:
                if T[0] == 'blob': sub = [('f', '$x')]
                elif z3.is_int_value(c.es):
                    for V in [T] + self.e.c.views_of(self, c.es.as_long()):
                        if self.prog.size(V) != c.es.as_long(): continue
                        r = self.path_at(V, off - hs, T)
                        if r is not None: sub = [('f', '$x'), ('view', V)] + r; break
            if sub is None: continue
            j = self.seq_index(c, t)
            if j is not None: return [('i', j)] + sub
        return None
    def seq_facts(self, c):
        k = Int('i!q')
        self.assume(ForAll([k], Implies(And(0 <= k, k < c.n), And(Select(c.A, k) > 0, Select(c.A, k) + 16 < lg.PTRMAX, Select(c.P, Select(c.A, k)) == k)), patterns=[Select(c.A, k)]))
    def seq_remove(self, cid, j):
        c = self.heap[cid]; k = Int('i!q')
        def shift(a):
            na = self.fresh('q', a.sort())
            self.assume(ForAll([k], Select(na, k) == If(k < j, Select(a, k), Select(a, k + 1)), patterns=[Select(na, k)]))
            return na
        A = shift(c.A); P = self.fresh('P', c.P.sort())
        n = self.heap[cid] = SeqC(c.key, c.T, c.es, lin_norm(c.n - 1), A, P, vmap(c.tree, shift))
        self.seq_facts(n)
        # the other nodes keep their address
        x = Int('x!q')
        self.assume(ForAll([x], Implies(And(0 <= Select(c.P, x), Select(c.P, x) < c.n, Select(c.P, x) != j, Select(c.A, Select(c.P, x)) == x),
            And(Select(P, x) == If(Select(c.P, x) < j, Select(c.P, x), Select(c.P, x) - 1), Select(A, Select(P, x)) == x)), patterns=[Select(P, x)]))
    def seq_insert(self, cid, j, p):
        """the explicit block at p becomes the j-th of the sequence"""
        c = self.heap[cid]; k = Int('i!q'); p = lin_norm(p)
        oid = None
        for x, o in self.heap.items():
            if isinstance(o, Obj) and o.T == c.T and o.base.eq(p): oid = x
        tk = self.find_tok(p)
        if oid is None or tk is None: return False
        hs = self.prog.layout(c.T[1])[1]
        val = dict(self.heap[oid].val); x = None
        for i, o in list(self.heap.items()):
            if o is not self.heap[oid] and o.base is not None and isinstance(o, (Raw, Blk, Obj)) and o.base.eq(lin_norm(p + hs)):
                if isinstance(o, Blk) and o.T[0] == 'blob': x = Select(o.tree, 0)
                elif isinstance(o, Obj): x = self.pack(o.val, o.T)
                else: x = self.fresh('blob', lg.Blob)
                del self.heap[i]
        if x is None: return False
        del self.heap[oid], self.heap[tk]
        val['$x'] = x
        def ins(a, v):
            na = self.fresh('q', a.sort())
            self.assume(ForAll([k], Select(na, k) == If(k < j, Select(a, k), If(k == j, v, Select(a, k - 1))), patterns=[Select(na, k)]))
            self.assume(Select(na, j) == v)
            return na
        A = ins(c.A, p); P = self.fresh('P', c.P.sort())
        n = self.heap[cid] = SeqC(c.key, c.T, c.es, lin_norm(c.n + 1), A, P, {f: vzip(c.tree[f], val[f], ins) for f in c.tree})
        self.seq_facts(n)
        return True
    # -------- regions
    def reg_facts(self, c):
        x = Int('x!g')
        self.assume(ForAll([x], Implies(Select(c.N, x), And(x > 0, x < lg.PTRMAX)), patterns=[Select(c.N, x)]))
        for d in self.heap.values():
            if d is not c and d.base is not None and isinstance(d, (Obj, Blk, Raw, TreeC, OpenC, Tok)) and not getattr(d, 'ro', False): self.assume(Not(Select(c.N, d.base)))
    def reg_path(self, c, la, T):
        if c.T[0] != 'rec':
            a = Lin.term(la)
            return [('i', a)] if self.same_type(T, c.T) and self.valid(Select(c.N, a)) else None
        hs = self.prog.layout(c.T[1])[1]
        for k, (t, co) in la[0].items():
            if co != 1: continue
            rest = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1])
            sub = None
            if not rest[0] and rest[1] >= hs:
                off = rest[1]
                if T[0] == 'blob': sub = [('f', '$x')]
                elif z3.is_int_value(c.es):
                    for V in [T] + self.e.c.views_of(self, c.es.as_long()):
                        if self.prog.size(V) != c.es.as_long(): continue
                        r = self.path_at(V, off - hs, T)
                        if r is not None: sub = [('f', '$x'), ('view', V)] + r; break
            elif not rest[0]:
                if rest[1] < 0: continue
                sub = self.path_at(c.T, rest[1], T)
            else: sub = self.sym_path(c.T, rest, T)
            if sub is None: continue
            if self.valid(Select(c.N, t)): return [('i', t)] + sub
        return None
    def reg_take(self, cid, p):
        """element p leaves the region and becomes a chunk of its own"""
        c = self.heap[cid] = self.heap[cid].copy()
        c.N = Store(c.N, p, BoolVal(False)); c.taken.append(p)
        if c.kind == 'strs':
            self.add(Tok(p, None)); return self.add(StrC(p, Select(c.tree['sv'], p), False))
        if c.kind == 'trees':
            T = Select(c.tree['T'], p); self.assume(And(T != lg.TNull, T != TGone)); return self.new_tree(p, T)
        raise Unsupported('taking an element of a region')
    def reg_find(self, p, kinds):
        p = lin_norm(p)
        for cid, c in list(self.heap.items()):
            if isinstance(c, RegC) and c.kind in kinds and self.valid(Select(c.N, p)): return cid
        return None
    def reg_put(self, cid, p, pos=None):
        """the chunk(s) at p become an element of the region"""
        c = self.heap[cid].copy(); p = lin_norm(p)
        if c.kind == 'strs':
            for i, o in list(self.heap.items()):
                if isinstance(o, (StrC, Blk, Raw)) and o.base.eq(p) and not getattr(o, 'ro', False):
                    tk = self.find_tok(p)
                    if tk is None: return False
                    sv = self.string_at(p, consume=True); del self.heap[tk]; break
            else: return False
            val = {'sv': sv}
        elif c.kind == 'trees':
            t = self.find_tree(p)
            if t is None:
                self.try_fold(p); t = self.find_tree(p)
            if t is None: return False
            T = self.close_tree(t); t = t if t in self.heap else self._closed
            del self.heap[t]; val = {'T': T}
        else:
            oid = None
            for x, o in self.heap.items():
                if isinstance(o, Obj) and o.T == c.T and o.base.eq(p): oid = x
            tk = self.find_tok(p)
            if oid is None or tk is None: return False
            hs = self.prog.layout(c.T[1])[1]
            val = dict(self.heap[oid].val); x = None
            for i, o in list(self.heap.items()):
                if i != oid and o.base is not None and isinstance(o, (Raw, Blk, Obj)) and o.base.eq(lin_norm(p + hs)):
                    if isinstance(o, Blk) and o.T[0] == 'blob': x = Select(o.tree, 0)
                    elif isinstance(o, Obj): x = self.pack(o.val, o.T)
                    else: x = self.fresh('blob', lg.Blob)
                    del self.heap[i]
            if x is None: x = self.fresh('blob', lg.Blob)
            del self.heap[oid], self.heap[tk]
            val['$x'] = x
        if c.T is None: val['pos'] = pos if pos is not None else Select(c.tree['pos'], p)      # ghost: position of the element in its container
        c.tree = {f: vzip(c.tree[f], val[f], lambda a, x: Store(a, p, to_int(x) if z3.is_bool(x) else x)) for f in c.tree}
        self.assume(Not(Select(c.N, p))); self.assume(And(p > 0, p < lg.PTRMAX))
        c.N = Store(c.N, p, BoolVal(True)); c.taken = [q for q in c.taken if not q.eq(p)]
        self.heap[cid] = c
        return True
    def reg_settle(self, cid):
        """elements that were taken out or created explicitly belong to the region again"""
        c = self.heap[cid]
        for p in list(c.taken): self.reg_put(cid, p)
        self.heap[cid] = self.heap[cid].copy(); self.heap[cid].taken = []
        if c.T is not None and c.T[0] == 'rec':
            for i, o in list(self.heap.items()):
                if isinstance(o, Obj) and o.T == c.T and o.origin == 'heap' and not o.ro and self.find_tok(o.base) is not None: self.reg_put(cid, o.base)
    def split_slot(self, la, off):
        """addr = p + off + 8*i with p a node pointer of a readable snapshot"""
        cand = [(k, t) for k, (t, co) in la[0].items() if co == 1]
        for k, t in cand:
            rest = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1] - off)
            if all(co % 8 == 0 for _, co in rest[0].values()) and rest[1] % 8 == 0 and rest[1] >= 0:
                if self.snap_for(t) is not None:
                    idx = Lin.term(({k2: (t2, co // 8) for k2, (t2, co) in rest[0].items()}, rest[1] // 8))
                    return t, idx
        return None

    def snap_string(self, addr, la):
        # p + offsetof(VariableNode, var_name) + i  (name of a variable node)
        off = self.node_off('VariableNode', 'var_name')
        for k, (t, co) in la[0].items():
            if co != 1: continue
            rest = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1] - off)
            if la[1] >= off and self.snap_for(t) is not None:
                s = self.snap_for(t)
                return LVs(t + off, Lin.term(rest), lg.nm(lg.tv(s, t)), True)
        # string reachable in a snapshot
        for k, (t, co) in la[0].items():
            if co != 1: continue
            rest = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1])
            for s in self.live_snaps():
                if self.valid(lg.cstr(s, t)): return LVs(t, Lin.term(rest), lg.strat(s, t), True)
        return None

    def node_off(self, rec, field):
        lay, _ = self.prog.layout(rec)
        return lay[field][0]

    def shares(self, d, base):
        """difference still mentions atoms of base -> not an offset into it"""
        ba = Lin.of(base)[0]
        return any(k in ba for k in d[0])
    def foreign(self, d):
        for k, (t, co) in d[0].items():
            for c in self.heap.values():
                if c.base is not None and k in Lin.of(c.base)[0] and z3.is_const(t) is not None and Lin.of(c.base)[0][k][1] == 1 and co in (1, -1) and not isinstance(c, (SnapC,)):
                    return True
        return False

    def sym_path(self, T, d, want):
        """symbolic offset d into type T (single symbolic array index)"""
        if not d[0]: return self.path_at(T, d[1], want)
        if T[0] == 'arr':
            es = self.prog.size(T[1])
            inner = {k: v for k, v in d[0].items() if v[1] % es != 0}
            outer = {k: (t, co // es) for k, (t, co) in d[0].items() if co % es == 0}
            rem = d[1] % es
            if self.prog.size(T[1]) and not inner:
                r = self.path_at(T[1], rem, want)
                if r is None: return None
                return [('i', Lin.term((outer, d[1] // es)))] + r
            r = self.sym_path(T[1], (inner, rem), want)
            if r is None: return None
            return [('i', Lin.term((outer, d[1] // es)))] + r
        if T[0] == 'rec':
            lay, _ = self.prog.layout(T[1])
            best = None
            for f, (o, ft) in lay.items():
                if ft[0] in ('arr',) and ft[2] is not None and o <= d[1] :
                    if d[1] < o + max(self.prog.size(ft), 1): best = (f, o, ft)
            if best is None:
                # negative constants inside of an index expression
                arrs = [(f, o, ft) for f, (o, ft) in lay.items() if ft[0] == 'arr' and ft[2] is not None]
                if len(arrs) != 1: return None
                best = arrs[0]
            f, o, ft = best
            r = self.sym_path(ft, (d[0], d[1] - o), want)
            return None if r is None else [('f', f)] + r
        return None
    def prefix_path(self, T, off, want):
        return None
    def blk_path(self, c, d, T):
        if self.shares(d, c.base): return None
        if c.T[0] == 'blob': return self.blob_path(c, d, T)
        es = self.prog.size(c.T)
        if es == 0: return None
        if any(co % es for _, co in d[0].values()):
            # index inside of an element: array member
            outer = {k: (t, co // es) for k, (t, co) in d[0].items() if co % es == 0}
            inner = {k: v for k, v in d[0].items() if v[1] % es != 0}
            if self.foreign(d): return None
            r = self.sym_path(c.T, (inner, d[1] % es), T)
            return None if r is None else [('i', Lin.term((outer, d[1] // es)))] + r
        if self.foreign(d): return None
        rem = d[1] % es
        r = self.path_at(c.T, rem, T)
        if r is None: return None
        idx = Lin.term(({k: (t, co // es) for k, (t, co) in d[0].items()}, d[1] // es))
        return [('i', idx)] + r

    def blob_path(self, c, d, T):
        """element of an array of untyped elements, seen as (part of) a T"""
        if self.foreign(d): return None
        es = c.T[1]
        if T[0] == 'blob':
            i = lin_div(Lin.term(d), es)
            return None if i is None else [('i', i)]
        if not z3.is_int_value(es): return None
        k = es.as_long()
        views = [T] + self.e.c.views_of(self, k)
        outer = ({i: (t, co // k) for i, (t, co) in d[0].items() if co % k == 0}, d[1] // k)
        inner = ({i: v for i, v in d[0].items() if v[1] % k != 0}, d[1] % k)
        for V in views:
            if self.prog.size(V) != k: continue
            r = self.sym_path(V, inner, T)
            if r is not None: return [('i', Lin.term(outer)), ('view', V)] + r
        return None
    def unpack(self, blob, V):
        def go(T, path, lift):
            if T[0] == 'rec': return {f: go(ft, path + '.' + f, lift) for f, ft in self.prog.fields(T[1])}
            if T[0] == 'arr': return AV(T[1], T[2], go(T[1], path, lift + 1))
            s = self.sort_of(T)
            for _ in range(lift): s = z3.ArraySort(I, s)
            v = z3.Function('unp:' + path, lg.Blob, s)(blob)
            if lift == 0:
                rc = self.range_of(v, T)
                if rc is not None: self.assume(rc)
            elif lift == 1 and T[0] != 'rec':
                i = Int('i!r'); rc = self.range_of(Select(v, i), T)
                if rc is not None: self.assume(ForAll([i], rc, patterns=[Select(v, i)]))
            return v
        return go(V, self.tname(V), 0)
    def tname(self, V):
        return V[1] if V[0] == 'rec' else ('ptr' if V[0] == 'ptr' else str(V[:2]))
    def pack(self, v, V):
        b = self.fresh('blob', lg.Blob)
        def go(x, T, path, lift):
            if T[0] == 'rec':
                for f, ft in self.prog.fields(T[1]): go(x[f], ft, path + '.' + f, lift)
            elif T[0] == 'arr': go(x.tree, T[1], path, lift + 1)
            else:
                s = self.sort_of(T)
                for _ in range(lift): s = z3.ArraySort(I, s)
                self.assume(z3.Function('unp:' + path, lg.Blob, s)(b) == (to_int(x) if z3.is_bool(x) else x))
        go(v, V, self.tname(V), 0)
        return b
    def type_raw(self, cid, c, d, T):
        """give a type to untyped memory on first access"""
        sz = self.prog.size(T)
        # index form: whole block is an array of T, or a record with a tail
        if T[0] == 'rec' and not d[0] and d[1] == 0:
            lay, rs = self.prog.layout(T[1])
            ls = Lin.of(c.size)
            rest = (ls[0], ls[1] - rs)
            flex = [f for f, (o, ft) in lay.items() if ft[0] == 'arr' and ft[2] is None]
            if not flex and not (not rest[0] and rest[1] == 0):
                if all(co % rs == 0 for _, co in ls[0].values()) and ls[1] % rs == 0:
                    n = Lin.term(({k: (t, co // rs) for k, (t, co) in ls[0].items()}, ls[1] // rs))
                    del self.heap[cid]
                    v = self.const_lift(self.zero_val(T)) if c.zero else self.fresh_val(T, 'mem', 1)
                    self.add(Blk(c.base, T, n, v)); return True
            self.prove(Lin.term(ls) >= rs, 'allocation is large enough for its type')
            del self.heap[cid]
            self.add(Obj(c.base, T, self.zero_val(T) if c.zero else self.fresh_val(T, 'mem')))
            if rest[0] or rest[1] != 0:
                self.add(Raw(lin_norm(c.base + rs), Lin.term(rest), c.zero))
            return True
        if T[0] in ('int', 'ptr', 'double', 'bool', 'rec'):
            ls = Lin.of(c.size)
            if all(co % sz == 0 for _, co in ls[0].values()) and ls[1] % sz == 0 and all(co % sz == 0 for _, co in d[0].values()):
                n = Lin.term(({k: (t, co // sz) for k, (t, co) in ls[0].items()}, ls[1] // sz))
                del self.heap[cid]
                v = self.const_lift(self.zero_val(T)) if c.zero else self.fresh_val(T, 'mem', 1)
                if z3.is_int_value(n) and n.as_long() == 1 and not d[0] and d[1] == 0:
                    self.add(Obj(c.base, T, self.zero_val(T) if c.zero else self.fresh_val(T, 'mem')))
                else:
                    self.add(Blk(c.base, T, n, v))
                return True
        return False

    def char_in(self, addr):
        """text or character array that the address provably points into (or just past)"""
        for cid, c in list(self.heap.items()):
            if isinstance(c, StrC) or isinstance(c, Blk) and c.T == CHAR:
                n = c.n if isinstance(c, Blk) else lg.slen(c.sv) + 1
                if self.valid(And(c.base <= addr, addr <= c.base + n)): return cid, lin_norm(addr - c.base)
        return None
    def _resolve_sem(self, addr, T):
        if T == CHAR:
            r = self.char_in(addr)
            if r is not None:
                c = self.heap[r[0]]
                return LVs(c.base, r[1], c.sv, c.ro) if isinstance(c, StrC) else LVc(r[0], [('i', r[1])], T)
        la = Lin.of(addr)
        for cid, c in list(self.heap.items()):
            if isinstance(c, Obj) and self.same_type(c.T, T) or isinstance(c, (Raw,)):
                if c.origin if isinstance(c, Obj) else True:
                    if isinstance(c, Obj) and c.origin == 'local': continue
                    if self.valid(addr == c.base):
                        if isinstance(c, Raw): 
                            if self.type_raw(cid, c, ({}, 0), T): return self._resolve(c.base, T)
                        else: return LVc(cid, [], T)
            elif isinstance(c, Blk):
                es = self.prog.size(c.T)
                p = self.path_at(c.T, 0, T)
                if p is not None:
                    # atoms of addr that equal the base
                    for k, (t, co) in la[0].items():
                        if co == 1 and self.valid(t == c.base):
                            d = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1])
                            r = self.blk_path(c, d, T)
                            if r is not None: return LVc(cid, r, T)
        return None

    # -------- trees
    def live_snaps(self):
        r = []
        for c in self.heap.values():
            if isinstance(c, (TreeC, SnapC)) and not any(c.snap.eq(x) for x in r): r.append(c.snap)
        return r
    def snap_for(self, p):
        """live snapshot in which p is a readable node"""
        for c in self.heap.values():
            if isinstance(c, TreeC) and c.base.eq(p): return c.snap
        if z3.is_app(p) and p.decl().eq(lg.cptr):
            s = p.arg(0)
            if any(s.eq(x) for x in self.live_snaps()) and self.valid(lg.node(s, p)): return s
        for s in self.live_snaps():
            if self.valid(lg.node(s, p)): return s
        return None
    def mk_tree_facts(self, p, T, s):
        self.assume(lg.node(s, p)); self.assume(lg.tv(s, p) == T)
    def new_tree(self, p, T):
        s = self.fresh('s', Snap)
        self.mk_tree_facts(p, T, s)
        return self.add(TreeC(p, T, s))
    def find_tree(self, p):
        """chunk (TreeC/OpenC) rooted at p, taking it out of an open parent if needed"""
        p = lin_norm(p)
        for cid, c in self.heap.items():
            if isinstance(c, (TreeC, OpenC)) and c.base.eq(p): return cid
        # operand of an open node, syntactically
        for cid, c in list(self.heap.items()):
            if isinstance(c, OpenC):
                i = self.kid_index(c, p)
                if i is not None:
                    return self.take_kid(cid, i)
        for cid, c in list(self.heap.items()):
            if isinstance(c, (TreeC, OpenC)) and self.valid(c.base == p): return cid
        r = self.reg_find(p, ('trees',))
        if r is not None: return self.reg_take(r, p)
        # child of a closed tree: open it
        if z3.is_app(p) and p.decl().eq(lg.cptr):
            s, q, i = p.arg(0), p.arg(1), p.arg(2)
            for cid, c in list(self.heap.items()):
                if isinstance(c, TreeC) and c.snap.eq(s) :
                    if c.base.eq(q) or self.valid(c.base == q):
                        cid2 = self.open_tree(cid)
                        return self.take_kid(cid2, i)
        return None
    def kid_index(self, c, p):
        def base_sel(e):
            # p is Select(PA', i) with PA' an older version of the slot array
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT: return e.arg(0), e.arg(1)
            if z3.is_app(e) and e.decl().eq(lg.cptr) and c.snap is not None and e.arg(0).eq(c.snap): return None, e.arg(2)
            return None
        r = base_sel(p)
        if r is None: return None
        a, i = r
        for (hi, hcid) in c.holes:
            if hi.eq(i): return None
        if a is not None and not (a.eq(c.PA)):
            if not a.sort() == c.PA.sort(): return None
        if self.valid(And(0 <= i, i < c.n, Select(c.PA, i) == p, p != 0)): return i
        return None
    def open_tree(self, cid):
        c = self.heap[cid]
        if isinstance(c, OpenC): return cid
        T, s, p = c.T, c.snap, c.base
        self.prove(lg.kind(T) == lg.NT['OP'], 'operand access only on operator nodes')
        del self.heap[cid]
        PA = self.fresh('PA', z3.ArraySort(I, I)); KT = self.fresh('KT', z3.ArraySort(I, Tree))
        i = Int('i!o')
        self.assume(ForAll([i], Implies(And(0 <= i, i < lg.nk(T)), And(Select(PA, i) == lg.cptr(s, p, i), Select(PA, i) >= 0, Select(PA, i) < lg.PTRMAX,
            (Select(KT, i) == lg.TNull) == (Select(PA, i) == 0))), patterns=[Select(PA, i)]))
        self.assume(ForAll([i], Implies(And(0 <= i, i < lg.nk(T)), Select(KT, i) == lg.kid(T, i)), patterns=[Select(KT, i), lg.kid(T, i)]))
        return self.add(OpenC(p, lg.tok(T), lg.opp(T), lg.nk(T), PA, KT, s))
    def settle(self, c, keep=None):
        """put operands back that were taken out of open node c"""
        for (i, _) in list(c.holes):
            self.put_back(c, i)
        c.holes = []
    def put_back(self, c, i):
        addr = lin_norm(c.base + self.node_off('OperatorNode', 'children') + 8 * i)
        cell = None
        for k, x in self.heap.items():
            if isinstance(x, Obj) and x.origin == 'slot' and x.base.eq(addr): cell = k
        if cell is not None:
            q = to_int(self.heap[cell].val); del self.heap[cell]
            c.PA = Store(c.PA, i, q)
        else: q = Select(c.PA, i)
        c.holes = [h for h in c.holes if not h[0].eq(i)]
        qs = z3.simplify(q)
        if z3.is_int_value(qs) and qs.as_long() == 0:
            c.KT = Store(c.KT, i, lg.TNull); return
        tc = None
        for k, x in self.heap.items():
            if isinstance(x, (TreeC, OpenC)) and x is not c and x.base.eq(lin_norm(q)): tc = k
        if tc is None:
            for k, x in self.heap.items():
                if isinstance(x, (TreeC, OpenC)) and x is not c and self.valid(x.base == q): tc = k; break
        if tc is None:
            if self.valid(q == 0): c.KT = Store(c.KT, i, lg.TNull)
            elif cell is None and self.valid(Select(c.KT, i) == lg.TNull): pass
            else: c.KT = Store(c.KT, i, TGone)
            return
        T = self.close_tree(tc)
        x = self.heap.pop(tc if tc in self.heap else self._closed)
        c.KT = Store(c.KT, i, x.T); self.assume(x.T != lg.TNull); self.assume(x.T != TGone); self.assume(q != 0)
    def close_tree(self, cid):
        """fold an open node"""
        c = self.heap[cid]
        self._closed = cid
        if isinstance(c, TreeC): return c.T
        self.settle(c)
        T = self.fresh('T', Tree); s = self.fresh('s', Snap); i = Int('i!c')
        self.prove(ForAll([i], Implies(And(0 <= i, i < c.n), Select(c.KT, i) != TGone), patterns=[Select(c.KT, i)]), 'no operand of the tree is dangling')
        self.assume(And(T != lg.TNull, T != TGone, lg.kind(T) == lg.NT['OP'], lg.tok(T) == c.tok, lg.opp(T) == c.opp, lg.nk(T) == c.n))
        self.assume(ForAll([i], Implies(And(0 <= i, i < c.n), lg.kid(T, i) == Select(c.KT, i)), patterns=[lg.kid(T, i), Select(c.KT, i)]))
        if z3.is_int_value(z3.simplify(c.n)):
            for j in range(min(4, z3.simplify(c.n).as_long())): self.assume(lg.kid(T, IntVal(j)) == Select(c.KT, IntVal(j)))
        for (a, ix) in store_indices(c.KT): self.assume(Implies(And(0 <= ix, ix < c.n), lg.kid(T, ix) == Select(c.KT, ix)))
        self.mk_tree_facts(c.base, T, s)
        self.assume(ForAll([i], Implies(And(0 <= i, i < c.n), lg.cptr(s, c.base, i) == Select(c.PA, i)), patterns=[lg.cptr(s, c.base, i)]))
        # wf is the least predicate closed under operands: introduce it when all operands are wf
        self.assume(Implies(ForAll([i], Implies(And(0 <= i, i < c.n), lg.wf(Select(c.KT, i))), patterns=[Select(c.KT, i)]), lg.wf(T)))
        del self.heap[cid]
        self._closed = self.add(TreeC(c.base, T, s))
        self.on_close(T, c)
        return T
    def on_close(self, T, c): 
        for h in self.e.c.close_hooks: h(self, T, c)
    def take_kid(self, cid, i):
        """make operand i of open node a separate chunk"""
        c = self.heap[cid]
        for (hi, _) in c.holes:
            if hi.eq(i):
                for k, x in self.heap.items():
                    if isinstance(x, (TreeC, OpenC)) and x.base.eq(lin_norm(Select(c.PA, i))): return k
                return None
        # other operands that are out must be put back or be different
        for (hi, _) in list(c.holes):
            if not self.valid(hi != i): self.put_back(c, hi)
        c = self.heap[cid] = c.copy()
        q = lin_norm(Select(c.PA, i)); T = Select(c.KT, i)
        if not self.valid(And(0 <= i, i < c.n)): return None
        c.holes = c.holes + [(i, 0)]
        if not self.valid(And(q != 0, T != TGone)): 
            c.holes = [h for h in c.holes if not h[0].eq(i)]
            return None
        self.assume(T != lg.TNull)
        return self.new_tree(q, T)
    def take_slot(self, cid, i):
        """make slot i of an open node a separate cell (and its operand a separate chunk)"""
        c = self.heap[cid]
        addr = lin_norm(c.base + self.node_off('OperatorNode', 'children') + 8 * i)
        for k, x in self.heap.items():
            if isinstance(x, Obj) and x.origin == 'slot' and x.base.eq(addr): return k
        for (hi, _) in list(c.holes):
            if hi.eq(i) or not self.valid(hi != i): self.put_back(c, hi)
        self.prove(And(0 <= i, i < c.n), 'operand index within the node')
        c = self.heap[cid] = c.copy()
        q = Select(c.PA, i)
        c.holes = c.holes + [(i, 1)]
        if not self.valid(Or(q == 0, Select(c.KT, i) == TGone)):
            if self.branch(q != 0):
                if self.valid(Select(c.KT, i) != TGone): self.new_tree(lin_norm(q), Select(c.KT, i))
        return self.add(Obj(addr, PTR(('rec', 'Node')), q, origin='slot'))

    # ---------------------------------------------------------------- load/store
    def load(self, lv):
        if isinstance(lv, LVc):
            c = self.heap.get(lv.cid)
            if c is None: raise Unsupported('stale lvalue')
            self.bounds(c, lv)
            v = self.getv(c.val if isinstance(c, Obj) else AV(c.T, None if isinstance(c, RegC) else c.n, c.tree), lv.path)
            return v
        if isinstance(lv, LVt): return self.load_tree(lv)
        if isinstance(lv, LVs):
            self.prove(And(lv.idx >= 0, lv.idx <= lg.slen(lv.sv)), 'string read within its terminator')
            return lg.sch(lv.sv, lv.idx)
        if isinstance(lv, LVop):
            for d in self.ghost.get('dead', ()): self.prove(lv.p != d, 'operator record is not deleted')
            self.prove(lg.validop(lv.p), 'operator pointer is valid')
            if lv.field is None: return {f: OPF[f](lv.p) for f in OPF}
            return OPF[lv.field](lv.p)
        if isinstance(lv, LVfn): return FnRef(lv.fn)
        raise Unsupported('load %r' % lv)
    def getv(self, v, path):
        for p in path:
            if p[0] == 'f': v = v[p[1]]
            elif p[0] == 'cast': pass
            elif p[0] == 'view': v = self.unpack(v, p[1])
            else:
                if not isinstance(v, AV): raise Unsupported('index into non-array')
                i = p[1]; v = vmap(v.tree, lambda a: Select(a, i))
        return v
    def setv(self, v, path, new):
        if not path: return new
        p = path[0]
        if p[0] == 'f':
            if not isinstance(v, dict): raise Unsupported('field of non-record value')
            r = dict(v); r[p[1]] = self.setv(v[p[1]], path[1:], new); return r
        if p[0] == 'cast': return self.setv(v, path[1:], new)
        if p[0] == 'view':
            return self.pack(self.setv(self.unpack(v, p[1]) if path[1:] else None, path[1:], new), p[1])
        i = p[1]
        el = vmap(v.tree, lambda a: Select(a, i))
        nel = self.setv(el, path[1:], new)
        return AV(v.T, v.n, vzip(v.tree, nel, lambda a, x: Store(a, i, to_int(x) if z3.is_bool(x) else x)))
    def bounds(self, c, lv):
        if isinstance(c, RegC):
            self.prove(Select(c.N, lv.path[0][1]), 'element belongs to the structure'); T = c.T
            for p in lv.path[1:]:
                if p[0] == 'i':
                    if T[2] is not None: self.prove(And(0 <= p[1], p[1] < T[2]), 'array index within bounds')
                    T = T[1]
                elif p[0] == 'f': T = self.prog.layout(T[1])[0][p[1]][1] if p[1] != '$x' else ('blob', c.es)
                else: T = p[1]
            return
        T = ('arr', c.T, c.n) if isinstance(c, (Blk, SeqC)) else c.T
        for p in lv.path:
            if p[0] == 'i':
                n = T[2] if isinstance(c, (Blk, SeqC)) or T[2] is not None else None
                if n is not None:
                    self.prove(And(0 <= p[1], p[1] < n), 'array index within bounds')
                T = T[1]
            elif p[0] == 'f': T = self.prog.layout(T[1])[0][p[1]][1] if p[1] != '$x' else ('blob', c.es)
            elif p[0] == 'view': T = p[1]
            elif p[0] == 'cast': T = p[1]
    def store(self, lv, v):
        if isinstance(v, z3.BoolRef): v = to_int(v)
        if isinstance(lv, LVc):
            c = self.heap.get(lv.cid)
            if c is None: raise Unsupported('stale lvalue')
            self.bounds(c, lv)
            if c.ro: self.prove(FALSE, 'no write to read-only memory'); raise PathStuck()
            c = self.heap[lv.cid] = c.copy()
            if isinstance(c, Obj):
                c.val = self.setv(c.val, lv.path, v)
            else:
                av = self.setv(AV(c.T, None if isinstance(c, RegC) else c.n, c.tree), lv.path, v); c.tree = av.tree
            return
        if isinstance(lv, LVt): return self.store_tree(lv, v)
        if isinstance(lv, LVs):
            # a write turns the string into a character array
            for cid, c in list(self.heap.items()):
                if isinstance(c, StrC) and c.base.eq(lv.base) and not c.ro:
                    del self.heap[cid]
                    arr = self.fresh('chars', z3.ArraySort(I, I)); i = Int('i!s')
                    self.assume(ForAll([i], Implies(And(0 <= i, i <= lg.slen(c.sv)), Select(arr, i) == lg.sch(c.sv, i)), patterns=[Select(arr, i)]))
                    nb = self.add(Blk(c.base, CHAR, lg.slen(c.sv) + 1, arr))
                    return self.store(LVc(nb, [('i', lv.idx)], CHAR), v)
            self.prove(FALSE, 'no write to read-only memory'); raise PathStuck()
        raise Unsupported('store')
    def load_tree(self, lv):
        p, f = lv.p, lv.field
        for cid, c in self.heap.items():
            if isinstance(c, OpenC) and c.base.eq(p):
                if f == 'type': return IntVal(lg.NT['OP'])
                if f == 'token_index': return c.tok
                if f == 'op': return c.opp
                if f == 'num_children': return c.n
                if f == 'children':
                    self.prove(And(0 <= lv.idx, lv.idx < c.n), 'operand index within the node')
                    addr = lin_norm(c.base + lv.off + 8 * lv.idx)
                    for x in self.heap.values():
                        if isinstance(x, Obj) and x.origin == 'slot' and x.base.eq(addr): return x.val
                    return Select(c.PA, lv.idx)
                self.prove(FALSE, 'node field matches the kind of node'); raise PathStuck()
        s = self.snap_for(p)
        if s is None:
            cid = self.find_tree(p)
            if cid is not None:
                c = self.heap[cid]
                if c.base.eq(p): return self.load_tree(lv)
                return self.load_tree(LVt(c.base, lv.field, lv.idx, lv.T, lv.off))
            self.nonnull(p)
            s = self.snap_for(p)
            if s is None:
                raise Unsupported('no tree known at %s line %s' % (str(p)[:100], self.curline))
        T = self.snap_tree(s, p)
        if f == 'children':
            self.prove(lg.kind(T) == lg.NT['OP'], 'node field matches the kind of node')
            self.prove(And(0 <= lv.idx, lv.idx < lg.nk(T)), 'operand index within the node')
            return lg.cptr(s, p, lv.idx)
        if f is None: raise Unsupported('whole node read')
        if f in PROJ:
            fn, kd = PROJ[f]
            if kd: self.prove(lg.kind(T) == lg.NT[kd], 'node field matches the kind of node')
            return fn(T)
        raise Unsupported('node field %s' % f)
    def snap_tree(self, s, p):
        for c in self.heap.values():
            if isinstance(c, TreeC) and c.snap.eq(s) and c.base.eq(p): return c.T
        return lg.tv(s, p)
    def store_tree(self, lv, v):
        p, f = lv.p, lv.field
        cid = self.find_tree(p)
        if cid is None:
            self.nonnull(p)
            if self.snap_for(p) is not None and not any(isinstance(c, (TreeC, OpenC)) for c in self.heap.values()):
                self.prove(FALSE, 'no write to read-only tree'); raise PathStuck()
            raise Unsupported('no owned tree at %s line %s' % (str(p)[:80], self.curline))
        c = self.heap[cid]
        if f == 'children':
            cid = self.open_tree(cid); c = self.heap[cid]
            k = self.take_slot(cid, lv.idx)
            self.heap[k] = self.heap[k].copy(); self.heap[k].val = v
            c = self.heap[cid] = self.heap[cid].copy()
            # eager: the new operand belongs to this node from now on
            vs = z3.simplify(v)
            if z3.is_int_value(vs) and vs.as_long() == 0: self.put_back(c, lv.idx)
            else:
                tc = self.find_tree(v)
                if tc is not None: self.put_back(c, lv.idx)
            return
        if isinstance(c, OpenC):
            c = self.heap[cid] = c.copy()
            if f == 'token_index': c.tok = v
            elif f == 'op': self.prove(lg.validop(v), 'operator pointer is valid'); c.opp = v
            else: raise Unsupported('store to node field ' + f)
            return
        T = c.T; T2 = self.fresh('T', Tree); i = Int('i!w')
        kd = {'token_index': None, 'op': 'OP', 'id': 'VAR', 'const_value': 'CONST'}
        if f not in kd: raise Unsupported('store to node field %s' % f)
        if kd[f]: self.prove(lg.kind(T) == lg.NT[kd[f]], 'node field matches the kind of node')
        if f == 'op': self.prove(lg.validop(v), 'operator pointer is valid')
        fs = [(lg.kind, None), (lg.tok, 'token_index'), (lg.opp, 'op'), (lg.nk, None), (lg.cval, 'const_value'), (lg.vid, 'id'), (lg.nm, None)]
        for fn, name in fs: self.assume(fn(T2) == (v if name == f else fn(T)))
        self.assume(And(T2 != lg.TNull, T2 != TGone))
        self.assume(ForAll([i], lg.kid(T2, i) == lg.kid(T, i), patterns=[lg.kid(T2, i), lg.kid(T, i)]))
        self.assume(lg.wf(T2) == lg.wf(T))
        s2 = self.fresh('s', Snap)
        del self.heap[cid]
        self.mk_tree_facts(c.base, T2, s2)
        self.assume(ForAll([i], lg.cptr(s2, c.base, i) == lg.cptr(c.snap, c.base, i), patterns=[lg.cptr(s2, c.base, i)]))
        self.add(TreeC(c.base, T2, s2))
        for h in self.e.c.update_hooks: h(self, T, T2, f, v)

    def addr(self, lv):
        if isinstance(lv, LVc):
            c = self.heap[lv.cid]
            a = c.base; T = ('arr', c.T, None) if isinstance(c, Blk) else c.T
            pth = lv.path
            if isinstance(c, SeqC):
                a = Select(c.A, pth[0][1]); T = c.T; pth = pth[1:]
                if pth and pth[0] == ('f', '$x'): a = a + self.prog.layout(T[1])[1]; T = None; pth = pth[1:]
            elif isinstance(c, RegC):
                a = pth[0][1]; T = c.T; pth = pth[1:]
                if pth and pth[0] == ('f', '$x'): a = a + self.prog.layout(T[1])[1]; T = None; pth = pth[1:]
            for p in pth:
                if p[0] == 'f':
                    o, T2 = self.prog.layout(T[1])[0][p[1]]; a = a + o; T = T2
                elif p[0] in ('cast', 'view'): T = p[1]
                else:
                    a = a + (T[1][1] if T[1][0] == 'blob' else self.prog.size(T[1])) * p[1]; T = T[1]
            return lin_norm(a)
        if isinstance(lv, LVt):
            if lv.field == 'children' and lv.idx is not None: return lin_norm(lv.p + lv.off + 8 * lv.idx)
            return lin_norm(lv.p + lv.off)
        if isinstance(lv, LVs): return lin_norm(lv.base + lv.idx)
        if isinstance(lv, LVop):
            return lin_norm(lv.p + (self.prog.layout('Operator')[0][lv.field][0] if lv.field else 0))
        if isinstance(lv, LVfn): return FnRef(lv.fn)
        raise Unsupported('address')

def lin_div(e, by):
    from .calls import divide
    return divide(e, by)
TGone = lg.TGone
def store_indices(a):
    r = []
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        r.append((a, a.arg(1))); a = a.arg(0)
    return r
