"""Registry of contracts and shared abstract predicates."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, Int, Ints, ForAll, Exists, K, Const, Consts, Function, BoolVal
from vcg.cast import *
from vcg import logic as lg
from vcg.logic import I, D, Tree, Str, Snap, Blob
from vcg.core import *
from vcg.interp import *
from vcg.calls import *

CONTRACTS = []
def contract(name, file=None, **kw):
    def d(f):
        c = Contract(name, f, file=file, **kw)
        CONTRACTS.append(c); return f
    return d

ASZ = 2**44      # no array of the program reaches this many elements (address space)
_lemmas = {}
def lemma(run, f):
    """arithmetic fact: checked on its own by the solver, then used"""
    k = f.sexpr()
    r = _lemmas.get(k)
    if r is None:
        s = z3.Solver(); s.set('timeout', 5000); s.add(Not(f)); r = s.check() == z3.unsat; _lemmas[k] = r
    if not r: raise Unsupported('lemma not proved: ' + k[:200])
    run.assume(f)

def fa(i, lo, hi, body, pats=None):
    return ForAll([i], Implies(And(lo <= i, i < hi), body), patterns=pats) if pats else ForAll([i], Implies(And(lo <= i, i < hi), body))

# ---------------------------------------------------------------- vectors
def blobT(es):
    s = z3.simplify(es)
    if z3.is_int_value(s) and s.as_long() == 1: return CHAR
    return ('blob', s if z3.is_int_value(s) else es)
class V: pass
def vec(S, p, es=None, count=None, sz=None, buf=None, bs=None, nn=None):
    """p points to a vector: elem_count <= buffer_size elements of elem_size bytes in its own block"""
    fields = {}
    if es is not None: fields['elem_size'] = es
    if count is not None: fields['elem_count'] = count
    if buf is not None: fields['buffer'] = buf
    if bs is not None: fields['buffer_size'] = bs
    o = S.obj(p, 'Vector', fields)
    v = V(); v.o = o; v.es, v.count, v.bs, v.buf = o['elem_size'], o['elem_count'], o['buffer_size'], o['buffer']
    if not S.inh: lemma(S.run, Implies(And(v.es >= 1, v.bs >= 0), v.es * v.bs >= v.bs))
    S.req(And(v.es > 0, v.es < 2**32, v.count >= 0, v.count <= v.bs, v.bs < 2**60), 'vector is well formed')
    if nn is not None: S.req(nn(v), 'buffer is allocated')
    if S.branch(v.buf == 0):
        S.req(v.bs == 0, 'vector without buffer is empty')
        v.A = Const('nobuf!%s' % ('c' if blobT(v.es) == CHAR else 'b'), z3.ArraySort(I, I if blobT(v.es) == CHAR else Blob))     # no element is stored: contents are irrelevant
    else:
        v.A = S.blk(v.buf, blobT(v.es), v.bs); S.tok(v.buf, v.es * v.bs)
    return v
def vec_ro(S, p):
    o = S.obj(p, 'Vector', ro=True)
    v = V(); v.o = o; v.es, v.count, v.bs, v.buf = o['elem_size'], o['elem_count'], o['buffer_size'], o['buffer']
    S.req(And(v.es > 0, v.es < 2**32, v.count >= 0, v.count <= v.bs, v.bs < 2**60), 'vector is well formed')
    return v
