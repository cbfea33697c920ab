"""Calls (contracts, library models, inlining), loops (inferred invariants) and the specification interface."""
import time, os
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, Int, BoolVal, ForAll, Exists, K
from .cast import *
from . import logic as lg
from .logic import I, D, Tree, Str, Snap
from .core import *
from .interp import *

MATH1 = {'exp', 'sqrt', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
         'atanh', 'ceil', 'floor', 'round', 'trunc', 'tgamma', 'fabs'}
MATH2 = {'pow', 'fmod'}
OUTPUT = {'printf', 'fprintf', 'vprintf', 'vfprintf', 'fputs', 'puts', 'fflush', 'putchar', 'rl_clear_history', 'rl_bind_key', 'add_history', 'srand', 'setvbuf'}
PURE_INT = {'isatty', 'rand', 'time'}

def mathfn(name, n=1): return z3.Function('m_' + name, *([D] * n + [D]))
Blob = lg.Blob

class Spec:
    """one use of a contract: mode 'in' assumes/produces, mode 'ex' proves/consumes"""
    def __init__(self, run, fn, args, where=''):
        self.run = run; self.fn = fn; self.a = args; self.mode = None; self.phase = 'pre'
        self.ret = None; self.where = where; self.g = {}
        self.lent = []
    @property
    def inh(self): return self.mode == 'in'
    def const(self, n):
        if n in self.run.prog.enumconst: return IntVal(self.run.prog.enumconst[n])
        if n in self.run.e.macros: return IntVal(self.run.e.macros[n])
        raise Unsupported('constant ' + n)
    def req(self, c, label=None):
        if self.inh: self.run.assume(c)
        else: self.run.prove(c, self.label(label))
    def assume(self, c): self.run.assume(c)
    def label(self, l):
        w = ('postcondition' if self.where == 'self' else 'precondition of %s' % self.fn.name)
        return '%s: %s' % (w, l or 'condition')
    def fresh(self, name, sort): return self.run.fresh(name, sort)
    def branch(self, c): return self.run.branch(c)
    def valid(self, c): return self.run.valid(c)
    # ---- memory
    def obj(self, p, T, fields=None, origin='heap', ro=False, label=None):
        run = self.run; T = ('rec', T) if isinstance(T, str) else T
        p = lin_norm(p)
        if self.inh:
            v = run.fresh_val(T, 'o')
            for f, x in (fields or {}).items(): v[f] = x
            for i, (q, lv, T2) in enumerate(self.run.lent):
                if q.eq(p) and T2 == T:
                    run.base_store(lv, v) if not isinstance(lv, LVt) else None
                    del self.run.lent[i]
                    return v
            run.assume(And(p > 0, p + run.prog.size(T) < lg.PTRMAX))
            if not ro: run.separate(p)
            run.add(Obj(p, T, v, origin, ro))
            return v
        if not self.writable_nonnull(p, label): raise PathStuck()
        lv = run.resolve(p, T)
        if isinstance(lv, LVc):
            c = run.heap[lv.cid]
            v = run.getv(c.val if isinstance(c, Obj) else AV(c.T, c.n, c.tree), lv.path) if not isinstance(c, Blk) else run.load(lv)
            if c.ro and not ro: run.prove(FALSE, self.label('argument memory is writable')); raise PathStuck()
            if not ro:
                if isinstance(c, Obj) and not lv.path and c.origin == 'heap': del run.heap[lv.cid]
                else: run.lent.append((p, lv, T))
        else: v = run.load(lv)
        for f, x in (fields or {}).items():
            run.prove(run.veq(v[f], x), self.label('%s.%s' % (T[1], f)))
        return v
    def writable_nonnull(self, p, label):
        s = z3.simplify(p)
        if z3.is_int_value(s) and s.as_long() == 0:
            self.run.prove(FALSE, self.label((label or 'pointer') + ' is not NULL')); return False
        return True
    def cell(self, p, T, val=None, ro=False):
        """single scalar at p"""
        run = self.run; p = lin_norm(p)
        if self.inh:
            v = val if val is not None else run.fresh_val(T, 'c')
            for i, (q, lv, T2) in enumerate(run.lent):
                if q.eq(p) and T2 == T:
                    run.store(lv, v) if not isinstance(lv, LVv) else None
                    del run.lent[i]; return v
            run.assume(And(p > 0, p + run.prog.size(T) < lg.PTRMAX))
            if not ro: run.separate(p)
            run.add(Obj(p, T, v, 'heap', ro)); return v
        lv = run.resolve(p, T)
        v = run.load(lv)
        if isinstance(lv, LVc):
            c = run.heap[lv.cid]
            if not ro:
                if c.ro: run.prove(FALSE, self.label('argument memory is writable')); raise PathStuck()
                if isinstance(c, Obj) and not lv.path and c.origin == 'heap': del run.heap[lv.cid]
                else: run.lent.append((p, lv, T))
        elif not ro: run.lent.append((p, lv, T))
        if val is not None: run.prove(run.veq(v, val), self.label('value of output'))
        return v
    def out(self, p, T):
        """memory of type T that will be written: contents irrelevant (pre in ex mode consumes)"""
        return self.cell(p, T) if T[0] != 'rec' else self.obj(p, T)
    def blk(self, p, T, n, tree=None, ro=False):
        run = self.run; p = lin_norm(p)
        if self.inh:
            t = tree if tree is not None else run.fresh_val(T, 'A', 1)
            for i, (q, lv, T2) in enumerate(run.lent):
                if q.eq(p) and T2 == ('blk', T):
                    del run.lent[i]; c = run.heap[lv.cid] = run.heap[lv.cid].copy(); 
                    if isinstance(c, Blk): c.tree = t
                    else: run.base_store(lv, AV(T, None, t))
                    return t
            run.assume(p > 0)
            run.add(Blk(p, T, n, t, 'heap', ro)); return t
        run.type_raw_as(p, T)
        if T == CHAR: run.str_to_blk(p)
        cid = run.find_blk(p, T)
        if cid is None and T[0] == 'blob' and ro and run.valid(n == 1):
            es = z3.simplify(T[1])
            for c in list(run.heap.values()):
                if isinstance(c, Obj) and c.base.eq(p) and z3.is_int_value(es) and run.prog.size(c.T) == es.as_long():
                    return K(I, run.pack(c.val, c.T))
        if cid is None:
            # array member of an object
            lv = run.resolve(p, T, quiet=True)
            if isinstance(lv, LVc) and lv.path and lv.path[-1][0] == 'i' and run.valid(lv.path[-1][1] == 0):
                c = run.heap[lv.cid]; lv2 = LVc(lv.cid, lv.path[:-1], ('arr', T, None))
                av = run.getv(c.val if isinstance(c, Obj) else AV(c.T, c.n, c.tree), lv2.path)
                if av.n is not None: run.prove(n <= av.n, self.label('array large enough'))
                if not ro: run.lent.append((p, lv2, ('blk', T)))
                t = av.tree
            else: raise Unsupported('no array known at %s (%s)' % (str(p)[:80], T))
        else:
            c = run.heap[cid]
            run.prove(n == c.n if not ro and c.origin == 'heap' else n <= c.n, self.label('size of the array'))
            t = c.tree
            if not ro:
                if c.ro: run.prove(FALSE, self.label('argument memory is writable')); raise PathStuck()
                if c.origin == 'heap': del run.heap[cid]
                else: run.lent.append((p, LVc(cid, [], T), ('blk', T)))
        if tree is not None: run.prove(run.veq(t, tree), self.label('contents of the array'))
        return t
    def va(self):
        """variable arguments (pointers, integers), as an array"""
        if self.where == 'self':
            if ('va', 1) not in self.run.ghost: self.run.ghost[('va', 1)] = self.run.fresh('va', z3.ArraySort(I, I))
            return self.run.ghost[('va', 1)]
        t = K(I, IntVal(0))
        for j, x in enumerate(self.a[len(self.fn.params):]):
            if isinstance(x, z3.ExprRef) and (x.sort() == I or z3.is_bool(x)): t = Store(t, j, to_int(x))
        return t
    def glob(self, name): return self.run.global_addr(name)
    def tok(self, p, size=None):
        run = self.run; p = lin_norm(p)
        if self.inh: run.add(Tok(p, size)); return
        cid = run.find_tok(p)
        if cid is None:
            run.prove(FALSE, self.label('ownership of allocated memory')); raise PathStuck()
        c = run.heap.pop(cid)
    def seq(self, key, T, es):
        """sequence of separately allocated blocks belonging to the container at key"""
        run = self.run; T = ('rec', T) if isinstance(T, str) else T; key = lin_norm(key)
        if self.inh:
            AI = z3.ArraySort(I, I)
            tree = {f: run.fresh_val(ft, f, 1) for f, ft in run.prog.fields(T[1]) if not (ft[0] == 'arr' and ft[2] is None)}
            tree['$x'] = run.fresh('X', z3.ArraySort(I, Blob))
            n = run.fresh('n', I); run.assume(And(n >= 0, n < 2**44))
            c = SeqC(key, T, es, n, run.fresh('A', AI), run.fresh('P', AI), tree)
            run.seq_facts(c); run.add(c); return c
        for cid, c in list(run.heap.items()):
            if isinstance(c, SeqC) and (c.key.eq(key) or run.valid(c.key == key)):
                del run.heap[cid]; return c
        raise Unsupported('no block sequence known')
    def reg(self, kind, key, T=None, es=None, put=(), ro=False):
        """set of separately allocated elements ('strs', 'trees' or records of type T with payload); put: chunks that join it"""
        run = self.run; key = lin_norm(key)
        if T is not None: T = ('rec', T)
        if self.inh:
            if key is None: key = run.fresh('key', I)
            if kind == 'strs': tree = {'sv': run.fresh('SV', z3.ArraySort(I, Str))}
            elif kind == 'trees': tree = {'T': run.fresh('TV', z3.ArraySort(I, Tree))}
            else:
                tree = {f: run.fresh_val(ft, f, 1) for f, ft in run.prog.fields(T[1]) if not (ft[0] == 'arr' and ft[2] is None)}
                tree['$x'] = run.fresh('X', z3.ArraySort(I, Blob))
            if T is None: tree['pos'] = run.fresh('pos', z3.ArraySort(I, I))
            c = RegC(kind, key, T, es, run.fresh('N', z3.ArraySort(I, z3.BoolSort())), tree, ro)
            run.reg_facts(c); run.add(c); return c
        cid = run.find_reg(kind, key)
        if cid is None: raise Unsupported('no region %s known' % kind)
        if not ro: run.reg_settle(cid)
        for p in put:
            if not (run.reg_put(cid, p[0], p[1]) if isinstance(p, tuple) else run.reg_put(cid, p)): run.prove(FALSE, self.label('element is owned')); raise PathStuck()
        c = run.heap[cid]
        if c.ro and not ro: run.prove(FALSE, self.label('argument memory is writable')); raise PathStuck()
        if not ro: del run.heap[cid]
        return c
    def newreg(self, kind, key, T=None, es=None):
        """ghost: an empty set of elements (self verification only)"""
        c = self.reg(kind, key, T, es) if self.inh else None
        if c is not None: c.N = K(I, BoolVal(False))
        return c
    def streq(self, a, b, label):
        """a, b are equal strings (strings are determined by their characters)"""
        run = self.run
        if self.inh: run.assume(a == b); return
        i = Int('i!se')
        if a.eq(b) or run.valid(a == b, 1000): return run.prove(a == b, self.label(label))
        run.prove(And(lg.slen(a) == lg.slen(b), ForAll([i], Implies(And(0 <= i, i < lg.slen(a)), lg.sch(a, i) == lg.sch(b, i)))), self.label(label)); run.assume(a == b)
    def pred(self, name, p, args=None, n=0, sorts=(), ro=False):
        """abstract resource name(p; args)"""
        run = self.run; p = lin_norm(p)
        if self.inh:
            av = args if args is not None else [run.fresh(name + '.%d' % i, s) for i, s in enumerate(sorts)]
            run.assume(And(p > 0, p < lg.PTRMAX))
            run.separate(p)
            run.add(PredC(name, p, list(av), ro)); return av
        cid = run.find_pred(name, p)
        if cid is None:
            run.prove(FALSE, self.label('argument is a valid %s' % name)); raise PathStuck()
        c = run.heap[cid]
        if not ro:
            if c.ro: run.prove(FALSE, self.label('%s may be changed' % name)); raise PathStuck()
            run.heap.pop(cid)
        if args is not None:
            for x, y in zip(args, c.args):
                if x is not None: run.prove(run.veq(y, x), self.label('contents of %s' % name))
        return c.args
    def str(self, p, sv=None, ro=True, own=False):
        """NUL-terminated string at p"""
        run = self.run; p = lin_norm(p)
        if self.inh:
            v = sv if sv is not None else run.fresh('str', Str)
            run.assume(And(p > 0, p < lg.PTRMAX))
            if not (ro and any(isinstance(c, StrC) and c.base.eq(p) for c in run.heap.values())):
                run.add(StrC(p, v, ro and not own))
            if own: run.add(Tok(p, None))
            return v
        v = run.string_at(p, consume=not ro or own)
        if own: self.tok(p)
        if sv is not None: run.prove(run.streq(v, sv), self.label('contents of the string'))
        return v
    def tree(self, p, T=None, label=None):
        """owned closed tree at p"""
        run = self.run; p = lin_norm(p)
        if self.inh:
            T = T if T is not None else run.fresh('T', Tree)
            run.assume(And(p > 0, p < lg.PTRMAX, T != lg.TNull, T != TGone))
            run.new_tree(p, T); return T
        if not self.writable_nonnull(p, label): raise PathStuck()
        cid = run.find_tree(p)
        if cid is None:
            run.try_fold(p); cid = run.find_tree(p)
        if cid is None:
            run.prove(FALSE, self.label((label or 'tree') + ' is an owned tree')); raise PathStuck()
        Tv = run.close_tree(cid)
        cid = cid if cid in run.heap else run._closed
        run.detach(cid)
        run.heap.pop(cid, None)
        if T is not None: run.prove_tree_eq(Tv, T, self.label((label or 'tree') + ' value'))
        return Tv
    def rotree(self, p, T=None, label=None):
        """tree at p that is only read"""
        run = self.run; p = lin_norm(p)
        if self.inh:
            T = T if T is not None else run.fresh('T', Tree)
            if self.phase == 'pre' or True:
                s = run.fresh('s', Snap); run.mk_tree_facts(p, T, s); run.assume(And(T != lg.TNull, T != TGone, p > 0, p < lg.PTRMAX))
                run.add(SnapC(s))
            return T
        if not self.writable_nonnull(p, label): raise PathStuck()
        s = run.snap_for(p)
        if s is not None: Tv = run.snap_tree(s, p)
        else:
            cid = run.find_tree(p)
            if cid is None:
                run.try_fold(p); cid = run.find_tree(p)
            if cid is None:
                s = run.snap_for(p)
                if s is None:
                    run.prove(FALSE, self.label((label or 'tree') + ' is a readable tree')); raise PathStuck()
                Tv = run.snap_tree(s, p)
            else: Tv = run.close_tree(cid)
        if T is not None: run.prove_tree_eq(Tv, T, self.label((label or 'tree') + ' value'))
        return Tv
    # ---- result
    def result(self, v, label='result'):
        if self.phase != 'post': raise Exception('result in pre')
        if self.mode == 'in': self.ret = v
        else:
            if self.ret is None: self.run.prove(FALSE, self.label(label)); return
            self.run.prove(self.run.veq(self.ret, v), self.label(label))
    def inv(self, f): self.run.invs.append((len(self.run.frames), f)) if self.where == 'self' else None

def veq(self, a, b):
    """value equality as a formula"""
    if isinstance(a, dict): return And([self.veq(a[k], b[k]) for k in a])
    if isinstance(a, AV): return self.veq(a.tree, b.tree)
    if a is None or b is None: return TRUE
    if z3.is_bool(a) and z3.is_bool(b): return a == b
    if z3.is_bool(a) != z3.is_bool(b): return to_int(a) == to_int(b)
    return a == b
Run.veq = veq

def separate(self, p):
    """p is a separate memory cell: distinct from other owned cells' bases"""
    for c in list(self.heap.values()):
        if isinstance(c, (Obj, Blk, TreeC, OpenC, PredC, Raw)) and c.base is not None and not getattr(c, 'ro', False):
            if c.base.eq(p): continue
            if isinstance(c, Blk) or isinstance(c, Raw): continue
            self.assume(c.base != p)
Run.separate = separate

def find_blk(self, p, T):
    for cid, c in self.heap.items():
        if isinstance(c, Blk) and c.base.eq(p) and self.blk_type_ok(c.T, T): return cid
    for cid, c in self.heap.items():
        if isinstance(c, Blk) and self.blk_type_ok(c.T, T) and self.valid(c.base == p): return cid
    return None
def blk_type_ok(self, a, b):
    if a[0] == 'blob' and b[0] == 'blob': return a[1].eq(b[1]) or self.valid(a[1] == b[1])
    return self.same_type(a, b)
def str_to_blk(self, p):
    for cid, c in list(self.heap.items()):
        if isinstance(c, StrC) and not c.ro and (c.base.eq(p) or self.valid(c.base == p)):
            del self.heap[cid]
            arr = self.fresh('chars', z3.ArraySort(I, I)); i = Int('i!s')
            self.assume(ForAll([i], Implies(And(0 <= i, i <= lg.slen(c.sv)), Select(arr, i) == lg.sch(c.sv, i)), patterns=[Select(arr, i)]))
            self.add(Blk(c.base, CHAR, lg.slen(c.sv) + 1, arr)); return
Run.str_to_blk = str_to_blk
def find_tok(self, p):
    for cid, c in self.heap.items():
        if isinstance(c, Tok) and c.base.eq(p): return cid
    for cid, c in self.heap.items():
        if isinstance(c, Tok) and self.valid(c.base == p): return cid
    return None
def find_pred(self, name, p):
    for cid, c in self.heap.items():
        if isinstance(c, PredC) and c.name == name and c.base.eq(p): return cid
    for cid, c in self.heap.items():
        if isinstance(c, PredC) and c.name == name and self.valid(c.base == p): return cid
    return None
def find_reg(self, kind, key):
    l = [(cid, c) for cid, c in self.heap.items() if isinstance(c, RegC) and c.kind == kind]
    for cid, c in l:
        if c.key.eq(key): return cid
    for cid, c in l:
        if self.valid(c.key == key): return cid
    return l[0][0] if len(l) == 1 else None      # keys are only names
def type_raw_as(self, p, T):
    for cid, c in list(self.heap.items()):
        if isinstance(c, Raw) and (c.base.eq(p) or self.valid(c.base == p)):
            self.type_raw_blk(cid, c, T)
def type_raw_blk(self, cid, c, T):
    if T[0] == 'blob': n = divide(c.size, T[1])
    else:
        sz = self.prog.size(T); n = divide(c.size, IntVal(sz))
    if n is None:
        return False
    del self.heap[cid]
    v = self.const_lift(self.zero_val(T)) if c.zero and T[0] != 'blob' else self.fresh_val(T, 'mem', 1)
    self.add(Blk(c.base, T, n, v)); return True
for _f in (find_reg, find_blk, blk_type_ok, find_tok, find_pred, type_raw_as, type_raw_blk): setattr(Run, _f.__name__, _f)

def streq(self, a, b):
    if a.eq(b): return TRUE
    return a == b
Run.streq = streq
def string_at(self, p, consume=False):
    """Str value of the NUL-terminated string at p"""
    p = lin_norm(p)
    for cid, c in list(self.heap.items()):
        if isinstance(c, StrC) and c.base.eq(p):
            if consume: 
                if c.ro: self.prove(FALSE, 'string is writable'); raise PathStuck()
                del self.heap[cid]
            return c.sv
    la = Lin.of(p)
    for cid, c in list(self.heap.items()):
        if isinstance(c, StrC):
            d = Lin.sub(la, Lin.of(c.base))
            if not self.shares(d, c.base) and not self.foreign(d):
                off = Lin.term(d)
                self.prove(And(off >= 0, off <= lg.slen(c.sv)), 'string pointer within the string')
                if consume: raise Unsupported('consuming the tail of a string')
                if z3.is_int_value(off) and off.as_long() == 0: return c.sv
                return lg.sdrop(c.sv, off)
    # characters in a typed array
    for cid, c in list(self.heap.items()):
        if isinstance(c, Raw) and c.base.eq(p): self.type_raw_blk(cid, c, CHAR)
    for cid, c in list(self.heap.items()):
        arr = None
        if isinstance(c, Blk) and (c.T == CHAR or c.T[0] == 'blob'):
            d = Lin.sub(la, Lin.of(c.base))
            if self.shares(d, c.base) or self.foreign(d): continue
            arr, n, off = c.tree, c.n, Lin.term(d)
            if c.T[0] == 'blob': continue
            sv = self.str_of_array(arr, n, off)
            if consume:
                self.prove(off == 0, 'string starts at its block')
                del self.heap[cid]
            return sv
    lv = self._resolve(p, CHAR)
    if isinstance(lv, LVs):
        s0 = z3.simplify(lv.idx)
        if z3.is_int_value(s0) and s0.as_long() == 0: return lv.sv
        self.prove(And(lv.idx >= 0, lv.idx <= lg.slen(lv.sv)), 'string pointer within the string')
        return lg.sdrop(lv.sv, lv.idx)
    if isinstance(lv, LVc) and lv.path and lv.path[-1][0] == 'i':
        c = self.heap[lv.cid]
        av = self.getv(c.val if isinstance(c, Obj) else AV(c.T, c.n, c.tree), lv.path[:-1])
        return self.str_of_array(av.tree, av.n, lv.path[-1][1])
    # pointers equal to a string base
    for cid, c in list(self.heap.items()):
        if isinstance(c, StrC) and self.valid(c.base == p): return c.sv
    r = self.char_in(p)
    if r is not None and not consume:
        c = self.heap[r[0]]
        if isinstance(c, Blk): return self.str_of_array(c.tree, c.n, r[1])
        self.prove(r[1] <= lg.slen(c.sv), 'string pointer within the string'); return lg.sdrop(c.sv, r[1])
    r = self.reg_find(p, ('strs',))
    if r is not None:
        sv = Select(self.heap[r].tree['sv'], p)
        if consume: self.heap.pop(self.reg_take(r, p))
        return sv
    if self.e.c.string_hook:
        r = self.e.c.string_hook(self, p)
        if r is not None: return r
    raise Unsupported('no string known at %s' % str(p)[:80])
def str_of_array(self, arr, n, off):
    """Str value of characters arr[off..] (a terminator within n must exist)"""
    key = ('soa', arr.get_id(), off.get_id())
    if key in self.ghost and self.ghost[key][0].eq(arr): return self.ghost[key][1]
    j = Int('j!n'); i = Int('i!n')
    # a terminator position must be known
    # the terminator is found through the ghost candidates of stores / invariants
    cands = [ix for (_, ix) in store_indices(arr)]
    hit = None
    for ix in cands:
        if self.valid(And(ix >= off, ix < n, Select(arr, ix) == 0)): hit = ix; break
    sv = lg.sarr(arr, off)
    if hit is None:
        self.prove(Exists([j], And(off <= j, j < n, Select(arr, j) == 0)), 'string is terminated within its memory')
        self.assume(Exists([j], And(off <= j, j < n, Select(arr, j) == 0)))
    L = lg.slen(sv)
    self.assume(And(off + L < n, L >= 0, Select(arr, off + L) == 0))
    if hit is not None: self.assume(off + L <= hit)
    self.assume(ForAll([i], Implies(And(0 <= i, i < L), Select(arr, off + i) != 0), patterns=[lg.sch(sv, i)]))
    self.assume(ForAll([i], Implies(And(0 <= i, i <= L), lg.sch(sv, i) == Select(arr, off + i)), patterns=[lg.sch(sv, i)]))
    self.assume(ForAll([i], Implies(And(off <= i, i < off + L), Select(arr, i) != 0), patterns=[Select(arr, i)]))
    self.ghost[key] = (arr, sv)
    return sv
Run.string_at = string_at; Run.str_of_array = str_of_array

def prove_tree_eq(self, a, b, label):
    if a.eq(b): return self.prove(TRUE, label)
    if self.valid(a == b, 1500): return self.prove(a == b, label)
    self.prove(self.tree_goal(a, b), label); self.assume(a == b)
def tree_goal(self, a, b):
    return Or(a == b, lg.tree_ext(a, b))
Run.prove_tree_eq = prove_tree_eq; Run.tree_goal = tree_goal

def detach(self, cid):
    """the tree chunk leaves its open parent: the hole stays until it is settled"""
    return
Run.detach = detach
def try_fold(self, p):
    """explicit node objects at p are folded into an owned tree"""
    for h in self.e.c.fold_hooks:
        if h(self, p): return True
    return False
Run.try_fold = try_fold

# ---------------------------------------------------------------------- calls
def call(self, f, args, ats, T, n):
    if not is_fn(f) and z3.is_app_of(f, z3.Z3_OP_SELECT):
        f0 = z3.simplify(f)
        if is_fn(f0): f = f0
    if is_fn(f): name = f.decl().name()[3:].split('@')[0]
    else:
        h = self.e.c.fnptr_hook
        r = None
        if h: r = h(self, f, args, n)
        if r is None:
            fs = z3.simplify(f)
            raise Unsupported('call through unknown function pointer (line %s) %s' % (self.curline, str(fs)[:200]))
        return r[0]
    full = f.decl().name()[3:].split('@')
    fn = self.prog.funcs.get((full[1], name)) if len(full) > 1 else self.prog.find(self.frame().func.file, name)
    return self.call_named(name, args, ats, T, n, fn)
def call_named(self, name, args, ats, T, n, fn=None):
    e = self.e
    cts = e.contracts.get((fn.file, fn.name)) if fn is not None else None
    if cts is not None and fn is not None and name not in e.c.inline:
        e.called.add(name)
        return self.call_contract(cts, fn, args, T)
    if fn is None or name in BUILTIN_FORCE:
        b = e.c.models.get(name) or BUILTINS.get(name)
        if b is not None: return b(self, args, ats, T, n)
        if name in MATH1:
            e.notes.add('C library: %s' % name)
            if name == 'fabs': return z3.fpAbs(self.coerce(args[0], DOUBLE))
            if name in ('trunc', 'ceil', 'floor', 'round'):
                m = {'trunc': z3.RTZ(), 'ceil': z3.RTP(), 'floor': z3.RTN(), 'round': z3.RNA()}[name]
                return mathfn(name)(args[0]) if True else z3.fpRoundToIntegral(m, args[0])
            return mathfn(name)(args[0])
        if name in MATH2: e.notes.add('C library: %s' % name); return mathfn(name, 2)(args[0], args[1])
        if name in OUTPUT:
            e.notes.add('C library: %s (output only)' % name)
            if name == 'printf' and self.e.c.out_hook: self.e.c.out_hook(self, name, args)
            if name in ('printf', 'fprintf') : self.check_fmt_args(args, ats)
            return None if T == VOID else self.fresh_val(T, 'r')
        if name in PURE_INT:
            e.notes.add('C library: %s' % name)
            r = self.fresh_val(T, name)
            if name == 'rand': self.assume(And(r >= 0, r < 2**31))
            return r
        if name in ('exit', 'abort'):
            if e.c.exit_hook: e.c.exit_hook(self, args)
            raise PathDone()
        raise Unsupported('external function ' + name)
    # inline
    if any(fr.func is fn for fr in self.frames): raise Unsupported('recursive function %s without contract' % name)
    if len(self.frames) > 10: raise Unsupported('call depth')
    e.inlined.add(name)
    return self.inline(fn, args, ats)
def check_fmt_args(self, args, ats): pass
def inline(self, fn, args, ats):
    fr = Frame(fn)
    self.frames.append(fr)
    saved = self.scopes; self.scopes = [[]]
    try:
        for p, a in zip(fn.params, args):
            self.declare(p, self.coerce(a, self.typ(p)) if isinstance(a, z3.ExprRef) else a, True)
            self.scopes[0].append(p['id'])
        try:
            self.ex(fn.body); r = None
        except RetX as x: r = x.v
        for p in fn.params: self.undeclare(p['id'])
    finally:
        self.frames.pop(); self.scopes = saved
    return r
def call_contract(self, ct, fn, args, T):
    args = [self.coerce(a, self.typ(p)) if isinstance(a, z3.ExprRef) else a for a, p in zip(args, fn.params)] + args[len(fn.params):]
    S = Spec(self, fn, args, 'call')
    S.mode = 'ex'; S.phase = 'pre'
    depth = len(self.lent); pos0 = self.pos
    g = ct.spec(S)
    next(g)
    S.mode = 'in'; S.phase = 'post'
    if T != VOID and fn.ret != VOID:
        S.ret = None; S._rt = fn.ret
        S.ret = to_bool(self.fresh_val(fn.ret, 'r')) if fn.ret == BOOL else self.fresh_val(fn.ret, 'ret_' + fn.name)
    try: next(g)
    except StopIteration: pass
    if ct.noreturn: raise PathDone()
    if self.pos != pos0 and (self.e.quick(self.pc, self.pcid, TRUE) or self.e.check(self.pc, self.pcid, TRUE, 100)[0] == z3.unsat): raise PathDone()
    if len(self.lent) > depth: raise Unsupported('callee %s keeps borrowed memory' % fn.name)
    return S.ret
for _f in (call, call_named, check_fmt_args, inline, call_contract): setattr(Run, _f.__name__, _f)

# ---------------------------------------------------------------------- library models
def alloc(self, size, zero=False, mayfail=True):
    size = lin_norm(size)
    p = self.fresh('new', I)
    self.assume(And(p >= 0, p < lg.PTRMAX, size >= 0))
    self.e.notes.add('malloc/calloc/realloc: fresh memory or NULL')
    if self.branch(p == 0): return IntVal(0)
    self.assume(And(p > 0, p + size < lg.PTRMAX))
    for c in list(self.heap.values()):
        if c.base is not None and not isinstance(c, SnapC): self.assume(c.base != p)
        if isinstance(c, SeqC):
            k = Int('i!q'); self.assume(ForAll([k], Implies(And(0 <= k, k < c.n), Select(c.A, k) != p), patterns=[Select(c.A, k)]))
        if isinstance(c, RegC): self.assume(Not(Select(c.N, p)))
    self.add(Raw(p, size, zero)); self.add(Tok(p, size))
    return p
def b_malloc(self, a, ats, T, n): return alloc(self, a[0])
def b_calloc(self, a, ats, T, n): return alloc(self, a[0] * a[1], True)
def b_free(self, a, ats, T, n):
    p = lin_norm(a[0])
    ps = z3.simplify(p)
    if z3.is_int_value(ps) and ps.as_long() == 0: return None
    tk = self.find_tok(p)
    if tk is None:
        if self.branch(p == 0): return None
        tk = self.find_tok(p)
        if tk is None:
            for cid, c in list(self.heap.items()):
                if isinstance(c, SeqC):
                    j = self.seq_index(c, p)
                    if j is not None: self.seq_remove(cid, j); return None
                if isinstance(c, RegC) and c.kind not in ('trees', 'cells') and not c.ro and self.valid(Select(c.N, p)):
                    c = self.heap[cid] = c.copy(); c.N = Store(c.N, p, BoolVal(False)); return None
            for h in self.e.c.free_hooks:
                if h(self, p): return None
            self.prove(FALSE, 'freed pointer is a live allocation owned here'); raise PathStuck()
    t = self.heap.pop(tk); base = t.base
    if not self.drop_memory(base, t.size):
        for h in self.e.c.free_hooks:
            if h(self, base): return None
        self.prove(FALSE, 'freed memory is owned completely'); raise PathStuck()
    return None
def drop_memory(self, base, size):
    found = False
    for cid, c in list(self.heap.items()):
        if isinstance(c, (Obj, Blk, Raw, StrC)) and not getattr(c, 'ro', False):
            if c.base.eq(base): del self.heap[cid]; found = True
            else:
                d = Lin.sub(Lin.of(c.base), Lin.of(base))
                if not d[0] and d[1] > 0 and found and getattr(c, 'origin', 'heap') == 'heap' : del self.heap[cid]
    return found
Run.drop_memory = drop_memory
def b_realloc(self, a, ats, T, n):
    p, size = lin_norm(a[0]), lin_norm(a[1])
    if self.branch(p == 0): return alloc(self, size)
    tk = self.find_tok(p)
    if tk is None:
        self.prove(FALSE, 'reallocated pointer is a live allocation owned here'); raise PathStuck()
    if not self.valid(size != 0):
        if self.branch(size == 0):
            t = self.heap.pop(tk)
            if not self.drop_memory(t.base, t.size): self.prove(FALSE, 'freed memory is owned completely')
            return IntVal(0)
    q = self.fresh('new', I); self.assume(And(q >= 0, q < lg.PTRMAX))
    if self.branch(q == 0): return IntVal(0)
    t = self.heap.pop(tk)
    src = None
    for cid, c in list(self.heap.items()):
        if isinstance(c, (Blk, Raw, Obj, StrC)) and (c.base.eq(t.base)): src = cid
    if src is None: raise Unsupported('realloc of unknown contents')
    c = self.heap.pop(src)
    self.assume(And(q > 0, q + size < lg.PTRMAX))
    for x in list(self.heap.values()):
        if x.base is not None and not isinstance(x, SnapC): self.assume(x.base != q)
    if isinstance(c, StrC):
        arr = self.fresh('chars', z3.ArraySort(I, I)); i = Int('i!s')
        self.assume(ForAll([i], Implies(And(0 <= i, i <= lg.slen(c.sv)), Select(arr, i) == lg.sch(c.sv, i)), patterns=[Select(arr, i)]))
        c = Blk(c.base, CHAR, lg.slen(c.sv) + 1, arr)
    if isinstance(c, Blk):
        es = c.T[1] if c.T[0] == 'blob' else IntVal(self.prog.size(c.T))
        m = divide(size, es)
        if m is None: raise Unsupported('realloc size is no multiple of the element size')
        i = Int('i!ra')
        def grow(arr):
            if self.valid(m == c.n, 300): return arr
            na = self.fresh('A', arr.sort())
            self.assume(ForAll([i], Implies(And(0 <= i, i < c.n, i < m), Select(na, i) == Select(arr, i)), patterns=[Select(na, i), Select(arr, i)]))
            return na
        self.add(Blk(q, c.T, m, vmap(c.tree, grow)))
    elif isinstance(c, Raw): self.add(Raw(q, size, False))
    else: raise Unsupported('realloc of an object')
    self.add(Tok(q, size))
    return q
def divide(e, by):
    """e / by if exact syntactically"""
    l = Lin.of(lin_norm(e)); b = lin_norm(by)
    if z3.is_int_value(b):
        k = b.as_long()
        if k == 1: return Lin.term(l)
        if k and all(co % k == 0 for _, co in l[0].values()) and l[1] % k == 0:
            return Lin.term(({i: (t, co // k) for i, (t, co) in l[0].items()}, l[1] // k))
        return None
    if l[1] != 0: return None
    out = []
    for t, co in l[0].values():
        q = mono_div(t, b)
        if q is None: return None
        out.append(IntVal(co) * q if co != 1 else q)
    return z3.Sum(out) if len(out) > 1 else (out[0] if out else IntVal(0))
def mono_div(t, b):
    fs = Lin.factors(t)
    for i, f in enumerate(fs):
        if f.eq(b):
            r = fs[:i] + fs[i+1:]
            if not r: return IntVal(1)
            return r[0] if len(r) == 1 else z3.Product(r)
    return None
def b_memcpy(self, a, ats, T, n):
    dst, src, size = lin_norm(a[0]), lin_norm(a[1]), lin_norm(a[2])
    ss = z3.simplify(size)
    # whole typed object
    if z3.is_int_value(ss):
        for c in list(self.heap.values()):
            if isinstance(c, Obj) and (c.base.eq(src) or c.base.eq(dst)) and self.prog.size(c.T) == ss.as_long() and c.T[0] != 'arr':
                v = self.load(self.resolve(src, c.T)); self.store(self.resolve(dst, c.T), v); return dst
    # element ranges
    for cid, c in list(self.heap.items()):
        if isinstance(c, Raw) and c.base.eq(dst):
            for c2 in list(self.heap.values()):
                if isinstance(c2, Blk) and (c2.base.eq(src)): self.type_raw_blk(cid, c, c2.T)
    dc = self.find_range(dst); sc = self.find_range(src)
    if dc is None or sc is None:
        if self.valid(size == 0): return dst
        raise Unsupported('memcpy of unknown memory (line %s)' % self.curline)
    (dk, di), (sk, si) = dc, sc
    d, s = self.heap[dk], self.heap[sk]
    if not self.blk_type_ok(d.T, s.T): raise Unsupported('memcpy between different element types')
    es = d.T[1] if d.T[0] == 'blob' else IntVal(self.prog.size(d.T))
    num = divide(size, es)
    if num is None: raise Unsupported('memcpy of partial elements')
    self.prove(And(0 <= di, di + num <= d.n), 'memcpy destination within its memory')
    self.prove(And(0 <= si, si + num <= s.n), 'memcpy source within its memory')
    if d.ro: self.prove(FALSE, 'no write to read-only memory')
    i = Int('i!mc')
    def cp(x, y):
        na = self.fresh('A', x.sort())
        self.assume(ForAll([i], Select(na, i) == If(And(di <= i, i < di + num), Select(y, i - di + si), Select(x, i)), patterns=[Select(na, i)]))
        ns = z3.simplify(num)
        if z3.is_int_value(ns) and ns.as_long() == 1: return Store(x, di, Select(y, si))
        return na
    d = self.heap[dk] = d.copy(); d.tree = vzip(d.tree, s.tree, cp)
    return dst
def find_range(self, p):
    la = Lin.of(p)
    for cid, c in list(self.heap.items()):
        if isinstance(c, Blk):
            d = Lin.sub(la, Lin.of(c.base))
            if self.shares(d, c.base) or self.foreign(d): continue
            es = c.T[1] if c.T[0] == 'blob' else IntVal(self.prog.size(c.T))
            i = divide(Lin.term(d), es)
            if i is not None: return cid, i
    for cid, c in list(self.heap.items()):
        if isinstance(c, Blk):
            for k, (t, co) in la[0].items():
                if co == 1 and self.valid(t == c.base):
                    d = ({k2: v for k2, v in la[0].items() if k2 != k}, la[1])
                    es = c.T[1] if c.T[0] == 'blob' else IntVal(self.prog.size(c.T))
                    i = divide(Lin.term(d), es)
                    if i is not None: return cid, i
    r = self.char_in(p)
    if r is not None and isinstance(self.heap[r[0]], Blk): return r
    return None
Run.find_range = find_range
def b_strlen(self, a, ats, T, n):
    return lg.slen(self.string_at(a[0]))
def b_strcmp(self, a, ats, T, n):
    x, y = self.string_at(a[0]), self.string_at(a[1])
    self.e.notes.add('C library: strcmp (zero exactly for equal strings)')
    r = lg.scmp(x, y); self.assume(And(r >= -2**31, r < 2**31)); self.assume((r == 0) == (x == y))
    return r
def b_strncmp(self, a, ats, T, n):
    x, y = self.string_at(a[0]), self.string_at(a[1]); i = Int('i!nc')
    self.e.notes.add('C library: strncmp (zero exactly when the first n characters, up to the end, agree)')
    r = self.fresh('strncmp', I); self.assume(And(r >= -2**31, r < 2**31))
    self.assume((r == 0) == ForAll([i], Implies(And(0 <= i, i < a[2], i <= lg.slen(x), i <= lg.slen(y)), lg.sch(x, i) == lg.sch(y, i)), patterns=[lg.sch(x, i), lg.sch(y, i)]))
    return r
def b_strstr(self, a, ats, T, n):
    x, y = self.string_at(a[0]), self.string_at(a[1])
    self.e.notes.add('C library: strstr (first occurrence)')
    r = lg.sfind(x, y); self.assume(And(r >= -1, r + lg.slen(y) <= lg.slen(x)))
    if self.branch(r < 0): return IntVal(0)
    return lin_norm(a[0] + r)
def b_strcpy(self, a, ats, T, n):
    sv = self.string_at(a[1])
    L = lg.slen(sv); dst = lin_norm(a[0])
    for cid, c in list(self.heap.items()):
        if isinstance(c, Raw) and c.base.eq(dst): self.type_raw_blk(cid, c, CHAR)
    r = self.find_range(dst)
    if r is not None:
        cid, di = r; c = self.heap[cid]
        if c.T == CHAR:
            self.prove(And(0 <= di, di + L + 1 <= c.n), 'strcpy destination large enough')
            if c.ro: self.prove(FALSE, 'no write to read-only memory')
            i = Int('i!sc'); na = self.fresh('chars', c.tree.sort())
            self.assume(ForAll([i], Select(na, i) == If(And(di <= i, i <= di + L), lg.sch(sv, i - di), Select(c.tree, i)), patterns=[Select(na, i)]))
            self.assume(Select(na, di + L) == 0)
            c = self.heap[cid] = c.copy(); c.tree = na
            if self.valid(And(di == 0, c.n == L + 1), 400):
                del self.heap[cid]; self.add(StrC(c.base, sv, False))
            return dst
    raise Unsupported('strcpy destination')
def fmt_text(self, fmt):
    """text produced by this format with this function's arguments"""
    k = ('fmt', lin_norm(fmt).get_id(), len(self.frames))
    if k not in self.ghost: self.ghost[k] = self.fresh('text', Str)
    self.ghost['fmt'] = self.ghost[k]
    return self.ghost[k]
def b_vsnprintf(self, a, ats, T, n):
    dst, size, fmt = lin_norm(a[0]), lin_norm(a[1]), a[2]
    self.e.notes.add('C library: vsnprintf (writes at most size bytes of the formatted text, returns its length; same text for the same format and arguments)')
    sv = fmt_text(self, fmt); L = lg.slen(sv); self.assume(L < 2**31 - 1)
    self.string_at(fmt)
    if self.branch(size == 0): return L
    r = self.find_range(dst)
    if r is None: raise Unsupported('vsnprintf destination')
    cid, di = r; c = self.heap[cid]
    if c.T != CHAR: raise Unsupported('vsnprintf destination type')
    w = If(L + 1 <= size, L, size - 1)   # characters written before the terminator
    self.prove(And(0 <= di, di + w + 1 <= c.n), 'vsnprintf destination within its memory')
    if c.ro: self.prove(FALSE, 'no write to read-only memory')
    i = Int('i!vp'); na = self.fresh('chars', c.tree.sort())
    self.assume(ForAll([i], Select(na, i) == If(And(di <= i, i < di + w), lg.sch(sv, i - di), If(i == di + w, IntVal(0), Select(c.tree, i))), patterns=[Select(na, i)]))
    c = self.heap[cid] = c.copy(); c.tree = na
    return L
def b_isinf(self, a, ats, T, n):
    v = a[0]
    return If(z3.fpIsInf(v), If(z3.fpIsNegative(v), IntVal(-1), IntVal(1)), IntVal(0))
def b_inff(self, a, ats, T, n): return z3.fpPlusInfinity(D)
def b_labs(self, a, ats, T, n): return If(a[0] >= 0, a[0], -a[0])
BUILTINS = {'malloc': b_malloc, 'calloc': b_calloc, 'free': b_free, 'realloc': b_realloc, 'memcpy': b_memcpy, 'strlen': b_strlen, 'strcmp': b_strcmp, 'strncmp': b_strncmp, 'strstr': b_strstr,
            'strcpy': b_strcpy, 'vsnprintf': b_vsnprintf, '__builtin_isinf_sign': b_isinf, '__builtin_inff': b_inff, '__builtin_inf': b_inff, 'labs': b_labs, 'llabs': b_labs}
BUILTIN_FORCE = set()

# ---------------------------------------------------------------------- loops
class LoopEnd(Exception): pass

def clone(self, work):
    r = Run.__new__(Run)
    r.__dict__.update(self.__dict__)
    r.trace = (); r.pos = 0; r.work = work
    r.pc = list(self.pc); r.heap = dict(self.heap)
    r.frames = [f.copy() for f in self.frames]
    # lvalues hold frames by reference: scopes hold ids only
    r.scopes = [list(s) for s in self.scopes]
    r.ghost = dict(self.ghost); r.lent = list(self.lent); r.globals = dict(self.globals)
    r.invs = self.invs
    r.mode = 'soft'
    return r

def locs(self):
    """all scalar locations of the state: key -> value"""
    out = {}
    for fi, fr in enumerate(self.frames):
        for vid, v in fr.env.items():
            if isinstance(v, z3.ExprRef): out[('env', fi, vid)] = v
    for cid, c in self.heap.items():
        if isinstance(c, Obj):
            for path, v in leaves(c.val): out[('obj', cid) + path] = v
        elif isinstance(c, Blk):
            for path, v in leaves(c.tree): out[('blk', cid) + path] = v
            out[('blkn', cid)] = c.n if isinstance(c.n, z3.ExprRef) else IntVal(c.n)
        elif isinstance(c, SeqC):
            out[('seqn', cid)] = c.n; out[('seqA', cid)] = c.A; out[('seqP', cid)] = c.P
            for path, v in leaves(c.tree): out[('seq', cid) + path] = v
        elif isinstance(c, RegC):
            out[('regN', cid)] = c.N
            for path, v in leaves(c.tree): out[('reg', cid) + path] = v
        elif isinstance(c, TreeC): out[('tree', cid)] = c.T
        elif isinstance(c, OpenC): out[('PA', cid)] = c.PA; out[('KT', cid)] = c.KT; out[('otok', cid)] = c.tok; out[('oopp', cid)] = c.opp
        elif isinstance(c, StrC): out[('strv', cid)] = c.sv
        elif isinstance(c, PredC):
            for i, x in enumerate(c.args): out[('pred', cid, i)] = x
    for k, v in self.ghost.items():
        if isinstance(k, tuple) and k[0] == 'gv': out[('ghost', k)] = v
    return out
def leaves(v, pre=()):
    if isinstance(v, dict):
        for k, x in v.items(): yield from leaves(x, pre + (k,))
    elif isinstance(v, AV): yield from leaves(v.tree, pre + ('[]',))
    elif v is None or isinstance(v, (FnRef, VaList)): return
    else: yield pre, v
def set_leaf(v, path, x):
    if not path: return x
    if path[0] == '[]': return AV(v.T, v.n, set_leaf(v.tree, path[1:], x))
    r = dict(v); r[path[0]] = set_leaf(v[path[0]], path[1:], x); return r
def setloc(self, k, x):
    if k[0] == 'env': self.frames[k[1]].env[k[2]] = x
    elif k[0] == 'ghost': self.ghost[k[1]] = x
    else:
        c = self.heap[k[1]] = self.heap[k[1]].copy()
        if k[0] == 'obj': c.val = set_leaf(c.val, k[2:], x)
        elif k[0] == 'seqn': c.n = x
        elif k[0] == 'seqA': c.A = x
        elif k[0] == 'seqP': c.P = x
        elif k[0] in ('seq', 'reg'): c.tree = set_leaf(c.tree, k[2:], x)
        elif k[0] == 'regN': c.N = x; self.reg_facts(c)
        elif k[0] == 'blk': c.tree = set_leaf(c.tree, k[2:], x)
        elif k[0] == 'blkn': c.n = x
        elif k[0] == 'PA': c.PA = x
        elif k[0] == 'KT': c.KT = x
        elif k[0] == 'otok': c.tok = x
        elif k[0] == 'oopp': c.opp = x
        elif k[0] == 'strv': c.sv = x
        elif k[0] == 'pred': c.args[k[2]] = x
        elif k[0] == 'tree':
            c.T = x; c.snap = self.fresh('s', Snap); self.mk_tree_facts(c.base, x, c.snap)

def norm_state(self):
    """close everything that has a canonical closed form"""
    for h in self.e.c.norm_hooks: h(self)
    for cid in list(self.heap):
        c = self.heap.get(cid)
        if isinstance(c, OpenC): 
            c = self.heap[cid] = c.copy(); self.settle(c)
    for cid in list(self.heap):
        if isinstance(self.heap.get(cid), RegC) and not self.heap[cid].ro: self.reg_settle(cid)
Run.norm_state = norm_state

class Retype(Exception):
    """untyped memory got its type inside of a loop: it is given this type before the loop"""
    def __init__(s, l): s.l = l
def retype(run, l):
    for b, T, arr in l:
        for cid, c in list(run.heap.items()):
            if isinstance(c, Raw) and c.base.eq(b):
                if arr: run.type_raw_blk(cid, c, T)
                else: run.type_raw(cid, c, ({}, 0), T)
def match(pre, post):
    """pairs chunks of two states: returns {post cid: pre cid} or raises"""
    m = {}
    pu = [k for k in pre.heap if k not in post.heap or type(pre.heap[k]) is not type(post.heap[k])]
    qu = [k for k in post.heap if k not in pre.heap or type(pre.heap[k]) is not type(post.heap[k])]
    plocs, qlocs = locs(pre), locs(post)
    for q in sorted(qu, key=lambda q: not isinstance(post.heap[q], Obj)):      # objects first: other chunks hang on their fields
        c = post.heap[q]
        if isinstance(c, SnapC): qu.remove(q); continue
        if isinstance(c, StrC) and c.ro: qu.remove(q); continue
        if isinstance(c, Obj) and c.origin in ('global',) and c.ro: qu.remove(q); continue
        for p in pu:
            d = pre.heap[p]
            if type(d) is not type(c): continue
            if isinstance(c, (Obj, Blk)) and not (d.T == c.T or c.T[0] == 'blob' and d.T[0] == 'blob' and c.T[1].eq(d.T[1])): continue
            if isinstance(c, PredC) and c.name != d.name: continue
            if isinstance(c, RegC):
                if c.kind == d.kind and (c.key.eq(d.key) or sum(isinstance(x, RegC) and x.kind == c.kind for x in post.heap.values()) == 1): m[q] = p; pu.remove(p); qu.remove(q); break
                continue
            if d.base is None or c.base is None: continue
            same = d.base.eq(c.base)
            if not same:
                for k, v in plocs.items():
                    if isinstance(v, z3.ExprRef) and v.sort() == I and v.eq(d.base):
                        if k[0] == 'obj' and k[1] not in post.heap: k = (k[0], next((q2 for q2, p2 in m.items() if p2 == k[1]), None)) + k[2:]
                        w = qlocs.get(k)
                        if w is not None and w.eq(c.base): same = True; break
            if not same and any(isinstance(pre.heap[x], (Obj, Blk, TreeC, OpenC, Raw, PredC, StrC)) and pre.heap[x].base.eq(d.base) and m_.get(x) for x in () for m_ in ()): pass
            if not same and not isinstance(c, Tok): same = post.valid(c.base == d.base)
            if same:
                m[q] = p; pu.remove(p); qu.remove(q); break
    # Toks follow the blocks
    for q in list(qu):
        c = post.heap[q]
        if isinstance(c, Tok):
            for p in pu:
                d = pre.heap[p]
                if isinstance(d, Tok):
                    for q2, p2 in m.items():
                        if post.heap[q2].base is not None and post.heap[q2].base.eq(c.base) and pre.heap[p2].base.eq(d.base):
                            m[q] = p; break
                    else:
                        if post.valid(c.base == d.base): m[q] = p
                    if q in m: pu.remove(p); qu.remove(q); break
    pu = [p for p in pu if not isinstance(pre.heap[p], SnapC) and not (isinstance(pre.heap[p], StrC) and pre.heap[p].ro)]
    qu = [q for q in qu if not (post.heap[q].__class__ in (Obj, TreeC) and getattr(post.heap[q], 'ro', False))]      # views made in the body are forgotten
    if pu or qu:
        rt = []
        for p in pu:
            d = pre.heap[p]
            if isinstance(d, Raw):
                for q in qu:
                    c = post.heap[q]
                    if isinstance(c, (Obj, Blk)) and c.base.eq(d.base) and c.T[0] != 'blob': rt.append((d.base, c.T, isinstance(c, Blk)))
                    elif isinstance(c, (Blk,)) and c.T[0] != 'blob': rt.append((c.base, c.T, True))
        if rt: raise Retype(rt)
        raise Unsupported('loop changes the shape of the heap: ' + ', '.join('%s@%s' % (type(post.heap[q]).__name__, str(post.heap[q].base)[:40]) for q in qu)
                          + ' / ' + ', '.join('%s@%s' % (type(pre.heap[p]).__name__, str(pre.heap[p].base)[:40]) for p in pu))
    return m

def rename_chunks(post, m):
    """give matched chunks of post the ids of pre"""
    for q, p in m.items():
        c = post.heap.pop(q); post.heap[p] = c

class LoopInfo: pass

def head_state(self, plan):
    """generalise the state by the plan: locations -> fresh values"""
    vals = {}
    bases = {}
    for k in sorted(plan, key=str):
        if k[0] == 'base': continue
        cur = locs(self).get(k)
        if cur is None: continue
        x = self.fresh('L', cur.sort())
        if k[0] == 'env': 
            T = self.loc_type(k)
        setloc(self, k, x); vals[k] = x
        rc = self.loc_range(k, x)
        if rc is not None: self.assume(rc)
    return vals

def loc_type(self, k):
    return None
def loc_range(self, k, x):
    """type range facts of a generalised location"""
    if x.sort() == I:
        T = None
        if k[0] in ('seqn', 'blkn'): return x >= 0
        if k[0] == 'env': T = self.vtype.get((k[1], k[2]))
        if k[0] == 'obj': T = path_type(self.prog, self.heap[k[1]].T, k[2:])
        if T is not None: return self.range_of(x, T)
        return None
    if k[0] == 'blk':
        T = path_type(self.prog, self.heap[k[1]].T, k[2:])
        if T is not None and x.sort() == z3.ArraySort(I, I):
            i = Int('i!r'); rc = self.range_of(Select(x, i), T)
            if rc is not None: return ForAll([i], rc, patterns=[Select(x, i)])
    if k[0] == 'tree': return And(x != lg.TNull, x != TGone)
    return None
def path_type(prog, T, path):
    for p in path:
        if T[0] == 'blob': return None
        if p == '[]': T = T[1]
        else: T = prog.layout(T[1])[0][p][1]
    return T
Run.loc_type = loc_type; Run.loc_range = loc_range

def rebase(self, plan, pre):
    """chunks whose anchor pointer is generalised move along"""
    pass

def loop(self, n, cond, body, inc, do_while):
    # constant trip counts are unrolled
    e = self.e
    key = (n.get('id'), self.pcid, self.trace[:self.pos], self.nfresh, self.mode, len(self.frames))
    info = e.invcache.get(key)
    if info is None:
        info = self.try_unroll(n, cond, body, inc, do_while)
        e.invcache[key] = info
    if info == 'unroll':
        first = do_while
        while True:
            if not first and cond is not None and not self.branch(to_bool(self.ev(cond))): return
            first = False
            try: self.ex(body)
            except BreakX: return
            except ContX: pass
            if inc is not None: self.ev(inc)
    if info == 'infer':
        rts = []
        for _ in range(4):
            try: info = self.infer(n, cond, body, inc, do_while, rts); break
            except Retype as x: rts = rts + x.l
        else: raise Unsupported('memory without a stable type in a loop')
        info.retype = rts
        e.invcache[key] = info
    # generalised head
    retype(self, info.retype)
    self.norm_state()
    pre = snapshot(self)
    self.apply_info(info, pre)
    self.loopdepth += 1
    first = do_while
    if not first:
        if cond is not None and not self.branch(to_bool(self.ev(cond))):
            self.loopdepth -= 1
            self.ghost['inloop'] = True
            return
    try:
        self.ex(body)
    except BreakX:
        self.loopdepth -= 1; self.ghost['inloop'] = True
        return
    except ContX: pass
    if do_while:
        if not self.branch(to_bool(self.ev(cond))):
            self.loopdepth -= 1; self.ghost['inloop'] = True
            return
    elif inc is not None: self.ev(inc)
    raise PathDone()      # covered by the induction step

class Snap0: pass
def snapshot(run):
    s = Snap0(); s.heap = dict(run.heap); s.frames = [f.copy() for f in run.frames]; s.ghost = dict(run.ghost); s.nfresh = run.nfresh
    s.valid = run.valid
    return s

def try_unroll(self, n, cond, body, inc, do_while):
    """'unroll' when the loop's condition is a literal after every iteration (at most 40)"""
    if cond is None or do_while: return 'infer'
    r = self.clone([])
    try:
        for it in range(41):
            nb = len(r.work)
            c = z3.simplify(to_bool(r.ev(cond)))
            if len(r.work) > nb or not (z3.is_true(c) or z3.is_false(c)): return 'infer'
            if z3.is_false(c): return 'unroll'
            if inc is None: return 'infer'
            if it == 0:
                # only the increment decides: the body must not be needed to know the condition
                pass
            r.ev(inc)
        return 'infer'
    except (PathDone, PathStuck, BreakX, ContX, RetX, GotoX, Unsupported):
        return 'infer'

def explore_body(self, start, cond, body, inc, do_while, info):
    """all executions of one iteration from the generalised head; returns end states"""
    ends = []
    work = [()]
    cnt = 0
    while work:
        tr = work.pop(); cnt += 1
        if cnt > 300: raise Unsupported('too many paths in a loop body')
        r = start(work); r.trace = tr; r.pos = 0
        r.loopdepth += 1
        try:
            if not do_while:
                if cond is not None and not r.branch(to_bool(r.ev(cond))): continue
            try: r.ex(body)
            except ContX: pass
            if do_while:
                if not r.branch(to_bool(r.ev(cond))): continue
            elif inc is not None: r.ev(inc)
            r.norm_state()
            ends.append(r)
        except (BreakX, RetX, GotoX, PathDone, PathStuck): pass
    return ends

def infer(self, n, cond, body, inc, do_while, rts=()):
    base = self.clone([]); base.mode = 'soft'
    retype(base, rts)
    base.norm_state()
    pre = snapshot(base); pre0 = locs(pre)
    info = LoopInfo(); info.plan = set(); info.bases = {}; info.cands = None
    # 1. what changes
    def grow(ends):
        h = base.clone([]); self_apply(h, info, pre, with_cands=False)
        hl = locs(h)
        grew = False
        for r in ends:
            m = match(h, r); rename_chunks(r, m)
            for cid, c in r.heap.items():
                d = h.heap.get(cid)
                if d is None: continue
                if c.base is not None and d.base is not None and not c.base.eq(d.base):
                    if cid not in info.bases:
                        # anchored pointer
                        anch = None
                        for k, v in hl.items():
                            if v.sort() == I and v.eq(d.base): 
                                w = locs(r).get(k)
                                if w is not None and w.eq(c.base): anch = k; break
                        if anch is None:
                            if r.valid(c.base == d.base): continue
                            # tokens: same base as a block
                            for cid2, b2 in r.heap.items():
                                if cid2 != cid and b2.base is not None and b2.base.eq(c.base) and cid2 in h.heap and h.heap[cid2].base.eq(d.base):
                                    for k, v in hl.items():
                                        if v.sort() == I and v.eq(d.base): anch = k
                            if anch is None: raise Unsupported('moving memory without an anchor in a loop')
                        info.bases[cid] = anch; info.plan.add(anch); grew = True
            rl = locs(r)
            for k, v in hl.items():
                w = rl.get(k)
                if w is None: 
                    continue
                if not w.eq(v) and k not in info.plan:
                    if w.sort() == v.sort() and v.sort() != Tree and not z3.is_array(v) and r.valid(w == v, 300): continue
                    info.plan.add(k); grew = True
        return grew
    def econd_of():
        if cond is None or do_while: return None
        q = base.clone([])
        try:
            ec = to_bool(q.ev(cond))
            return ec if not q.work else None
        except (PathDone, PathStuck, Unsupported): return None
    econd = econd_of()
    bounds = []
    if cond is not None:
        def cmps(x):
            x = strip(x)
            if x.get('kind') == 'ImplicitCastExpr': cmps(kids(x)[0])
            elif x.get('kind') == 'BinaryOperator' and x['opcode'] in ('&&', '||'):
                for y in kids(x): cmps(y)
            elif x.get('kind') == 'BinaryOperator' and x['opcode'] in ('<', '!=', '<=', '>', '>='):
                for y in kids(x):
                    if strip(y).get('kind') == 'DeclRefExpr': continue
                    q = base.clone([])
                    try: v = q.ev(y)
                    except (PathDone, PathStuck, Unsupported): continue
                    if not q.work and z3.is_int(v) and not z3.is_int_value(z3.simplify(v)): bounds.append(v)
        cmps(cond)
    info.bounds = bounds
    def setup_cands():
        """all candidates that hold at entry"""
        h = base.clone([]); self_apply(h, info, pre, with_cands=False)
        info.gen = candidates(self, h, info, pre, pre0, econd)
        entry = base.clone([]); fs = info.gen(entry, pre)
        info.cands = [i for i in range(len(fs)) if entry.valid(fs[i], 1500)]
        if os.environ.get('VCG_DEBUG') in ('2', '3'):
            for i in range(len(fs)):
                if i not in info.cands: print('NOT AT ENTRY line', self.curline, str(z3.simplify(fs[i]))[:300])
    opt = False
    for rnd in range(16):
        def start(work):
            r = base.clone(work)
            self_apply(r, info, pre, with_cands=opt); return r
        try:
            if opt: setup_cands()
            ends = explore_body(self, start, cond, body, inc, do_while, info)
            g = grow(ends)
        except Unsupported:
            # memory cannot be found without knowing anything about the state: assume what holds at entry
            if opt or not info.plan and not self.invs: raise
            opt = True; continue
        if not g: break
    else: raise Unsupported('loop generalisation does not stabilise')
    # 2. candidate invariants, pruned to an inductive set
    setup_cands()
    for rnd in range(40):
        alive = info.cands
        def start(work):
            r = base.clone(work)
            self_apply(r, info, pre, with_cands=True); return r
        ends = explore_body(self, start, cond, body, inc, do_while, info)
        if opt and grow(ends): setup_cands(); continue
        bad = set()
        for r in ends:
            h2 = base.clone([]); self_apply(h2, info, pre, with_cands=False)
            m = match(h2, r); rename_chunks(r, m)
            fs = info.gen(r, pre)
            for i in alive:
                if i in bad: continue
                if not r.valid(fs[i], 2500):
                    bad.add(i)
                    if os.environ.get('VCG_DEBUG') == '2': print('PRUNED round', rnd, 'line', self.curline, str(z3.simplify(fs[i]))[:400]); 
                    if os.environ.get('VCG_DUMP'):
                        so = z3.Solver(); [so.add(x) for x in list(lg.base_axioms()) + list(r.e.c.axioms()) + list(r.pc)]; so.add(z3.Not(fs[i])); open('/tmp/dump/%s-%d-%d.smt2' % (self.curline, rnd, i), 'w').write(so.to_smt2())
                    if os.environ.get('VCG_DEBUG') == '3': print('PRUNED round', rnd, 'line', self.curline, str(z3.simplify(fs[i]))[:400]); [print('        ', str(x)[:200]) for x in r.pc[-30:]]
        if not bad: break
        info.cands = [i for i in alive if i not in bad]
    else: raise Unsupported('no inductive invariant found')
    alive = info.cands
    info.cands = alive
    self.e.loops_done[(self.frames[-1].func.name, self.curline)] = len(alive)
    if os.environ.get('VCG_DEBUG'):
        h = base.clone([]); self_apply(h, info, pre, with_cands=False); fs = info.gen(h, pre)
        print('LOOP line', self.curline, 'plan', sorted(info.plan, key=str), 'alive:')
        for i in alive: print('    ', str(z3.simplify(fs[i]))[:200])
    return info

def self_apply(r, info, pre, with_cands=True):
    vals = head_state(r, info.plan)
    # moved memory follows its anchor
    for cid, c in list(r.heap.items()):
        if isinstance(c, SeqC) and ('seqA', cid) in info.plan: r.seq_facts(c)
    cur = locs(r)
    for cid, anch in info.bases.items():
        c = r.heap.get(cid)
        if c is None: continue
        c = r.heap[cid] = c.copy()
        c.base = cur[anch]
        if isinstance(c, Tok): c.size = None
    for cid, c in list(r.heap.items()):
        if isinstance(c, Tok) and c.size is not None: 
            pass
    if with_cands and info.cands is not None:
        fs = info.gen(r, pre)
        for i in info.cands: r.assume(fs[i])
    return vals
def apply_info(self, info, pre):
    self_apply(self, info, pre, True)

def candidates(self, h, info, pre, pre0, econd):
    """generator of candidate invariants: f(state, pre) -> list of formulas in a fixed order"""
    ints = sorted([k for k in info.plan if pre0.get(k) is not None and pre0[k].sort() == I], key=str)
    # stable integer quantities to compare with
    stable = []
    for k, v in sorted(pre0.items(), key=lambda kv: str(kv[0])):
        if k not in info.plan and v.sort() == I and not z3.is_int_value(v) and k[0] in ('env', 'obj', 'blkn'):
            T = self.vtype.get((k[1], k[2])) if k[0] == 'env' else (path_type(self.prog, pre.heap[k[1]].T, k[2:]) if k[0] == 'obj' else SIZE)
            if T is not None and T[0] == 'int': stable.append(v)
    def isint(k):
        T = self.vtype.get((k[1], k[2])) if k[0] == 'env' else (path_type(self.prog, pre.heap[k[1]].T, k[2:]) if k[0] == 'obj' else (SIZE if k[0] == 'blkn' else None))
        return T is not None and T[0] == 'int'
    iints = [k for k in ints if isint(k)]
    invs = [f for d, f in self.invs]
    inv_infos = LoopView
    def gen(st, pre_):
        cur = locs(st); fs = []
        for k in ints:
            x, x0 = cur[k], pre0[k]
            if isint(k):
                fs += [x >= x0, x <= x0, x >= 0]
                for s in stable[:12]: fs += [x <= s, x < s]
                for s in info.bounds: fs += [x <= s]
            else: fs += [x > 0, x < lg.PTRMAX]
        if econd is not None:
            for k in sorted(info.plan, key=str):
                if pre0.get(k) is not None and k in cur: fs.append(Or(econd, cur[k] == pre0[k]))
        for i, a in enumerate(iints):
            for b in iints[i+1:]:
                fs += [cur[a] - pre0[a] == cur[b] - pre0[b], cur[a] - pre0[a] == pre0[b] - cur[b], cur[a] <= cur[b], cur[b] <= cur[a], cur[a] == cur[b] + 1, cur[b] == cur[a] + 1]
        for cid in sorted(pre.heap):
            c = st.heap.get(cid)
            if isinstance(c, Obj) and c.T[0] == 'rec' and c.T[1] in st.e.recinv:
                fs += st.e.recinv[c.T[1]](st, c)
        L = LoopView(); L.run = st; L.pre = pre; L.pre0 = pre0; L.cur = cur; L.plan = info.plan
        L.ints = [(cur[k], pre0[k]) for k in iints]; L.keys = iints
        L.vars = [k for k in sorted(info.plan, key=str) if (k[0] == 'env' or k[0] == 'obj' and len(k) == 2 and getattr(pre.heap.get(k[1]), 'origin', '') == 'local') and k in cur and pre0.get(k) is not None and pre0[k].sort() == I]
        L.bools = [k for k in sorted(info.plan, key=str) if k[0] == 'env' and k in cur and pre0.get(k) is not None and z3.is_bool(pre0[k])]
        for f in invs: fs += f(L)
        return fs
    return gen
class LoopView:
    """state at a loop head as seen by candidate generators of a contract"""
    def chunk(self, cid): return self.run.heap[cid]
    def changed(self, kind): return [(k, self.cur[k], self.pre0[k]) for k in sorted(self.plan, key=str) if k[0] == kind and k in self.pre0]
for _f in (clone, loop, try_unroll, infer, apply_info): setattr(Run, _f.__name__, _f)

# ---------------------------------------------------------------------- verification of one path
def verify_path(self):
    e = self.e; fn = e.func
    self.scopes = [[]]; self.lent = []; self.invs = []; self.vtype = VType(self)
    fr = Frame(fn); self.frames.append(fr)
    args = []
    for p in fn.params:
        T = self.typ(p)
        if True:
            v = self.fresh_val(T, 'arg_' + (p.get('name') or 'x'))
            if T == BOOL: v = v == 1
        args.append(v)
    S = Spec(self, fn, args, 'self')
    S.mode = 'in'; S.phase = 'pre'
    g = e.c.spec(S)
    next(g)
    args = S.a
    if not e.pre_ok:
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        r = e.check(self.pc, self.pcid, TRUE, 3000)
        if r[0] == z3.unsat: raise PathDone()
        e.pre_ok = True
    for p, a in zip(fn.params, args):
        self.declare(p, a, True); self.scopes[0].append(p['id'])
    try:
        self.ex(fn.body); v = None
    except RetX as x: v = x.v
    for p in fn.params: self.undeclare(p['id'])
    self.curline = 'end'
    S.mode = 'ex'; S.phase = 'post'; S.ret = v
    if fn.ret == BOOL and v is not None: S.ret = to_bool(v)
    self.inpost = True
    try: next(g)
    except StopIteration: pass
    for cid in list(self.heap):
        if isinstance(self.heap.get(cid), RegC) and not self.heap[cid].ro: self.reg_settle(cid)
    # nothing may be left over
    left = []
    for c in self.heap.values():
        if isinstance(c, (Tok, TreeC, OpenC)): left.append(c)
        elif isinstance(c, RegC):
            if not c.ro: self.prove(ForAll([Int('x!g')], Not(Select(c.N, Int('x!g')))), 'postcondition: all memory is returned or freed (%s)' % c.kind)
        elif isinstance(c, (Obj, Blk, PredC, SeqC)) and getattr(c, 'origin', 'heap') in ('heap',) and not getattr(c, 'ro', False): left.append(c)
    left = [c for c in left if not getattr(c, 'leakok', False)]
    if left: self.prove(FALSE, 'postcondition: all memory is returned or freed (%s)' % type(left[0]).__name__)
    else: self.prove(TRUE, 'postcondition: all memory is returned or freed')
class VType(dict):
    def __init__(s, run): s.run = run
    def get(s, k, d=None):
        fi, vid = k
        return VT.get(vid, d)
VT = {}
def _index_types(prog):
    VT.clear()
    def w(n):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and 'type' in n:
            try: VT[n['id']] = prog.type_of(n['type'])
            except Exception: pass
        for c in kids(n): w(c)
    for f in prog.funcs.values():
        w(f.body)
        for p in f.params: w(p)
Run.verify_path = verify_path

class Contract:
    def __init__(self, name, spec, **kw):
        self.name = name; self.spec = spec
        self.file = kw.pop('file', None); self.props = kw.pop('props', ()); self.inline = set(kw.pop('inline', ()))
        self.close_hooks = kw.pop('close_hooks', []); self.update_hooks = kw.pop('update_hooks', [])
        self.fold_hooks = kw.pop('fold_hooks', []); self.norm_hooks = kw.pop('norm_hooks', []); self.free_hooks = kw.pop('free_hooks', [])
        self.fnptr_hook = kw.pop('fnptr', None); self.string_hook = kw.pop('string_hook', None); self.out_hook = kw.pop('out_hook', None); self.exit_hook = kw.pop('exit_hook', None); self.models = kw.pop('models', {})
        self._axioms = kw.pop('axioms', None); self.noreturn = kw.pop('noreturn', False)
        self.trusted = kw.pop('trusted', None); self.budget = kw.pop('budget', 120); self.tmo = kw.pop('tmo', 6000)
        self.text = kw.pop('text', ''); self.views = kw.pop('views', [])
        assert not kw, kw
    def axioms(self): return self._axioms() if self._axioms else []
    def views_of(self, run, size):
        r = []
        for v in self.views:
            T = ('rec', v) if isinstance(v, str) else v
            try:
                if run.prog.size(T) == size: r.append(T)
            except Unsupported: pass
        return r
