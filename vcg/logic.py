"""Logical vocabulary: sorts, spec functions and their definitional axioms."""
import z3
from z3 import *

I = IntSort(); B = BoolSort(); D = Float64()
Tree = DeclareSort('Tree'); Str = DeclareSort('Str'); Snap = DeclareSort('Snap')

# ---- trees: inductive values, seen through projections
kind = Function('kind', Tree, I); tok = Function('tok', Tree, I); opp = Function('opp', Tree, I)
nk = Function('nk', Tree, I); kid = Function('kid', Tree, I, Tree); cval = Function('cval', Tree, D)
vid = Function('vid', Tree, I); nm = Function('nm', Tree, Str)
TNull = Const('TNull', Tree); TGone = Const('TGone', Tree)   # no operand / operand that was taken away
# ---- readable heap snapshots
node = Function('node', Snap, I, B); tv = Function('tv', Snap, I, Tree); cptr = Function('cptr', Snap, I, I, I)
wf = Function('wf', Tree, B)
# ---- operators (shared, read-only records)
opid = Function('opid', I, I); oparity = Function('oparity', I, I); opprec = Function('opprec', I, I)
opassoc = Function('opassoc', I, I); opplace = Function('opplace', I, I); opname = Function('opname', I, I)
validop = Function('validop', I, B)
# ---- strings
slen = Function('slen', Str, I); sch = Function('sch', Str, I, I)
strat = Function('strat', Snap, I, Str)        # string stored at an address in a readable snapshot
cstr = Function('cstr', Snap, I, B)            # readable NUL-terminated string there
sdrop = Function('sdrop', Str, I, Str)
sarr = Function('sarr', ArraySort(I, I), I, Str)   # string in a character array from an offset on
scmp = Function('scmp', Str, Str, I)
spfx = Function('spfx', Str, Str, B)           # first string is a prefix of the second
sfind = Function('sfind', Str, Str, I)         # position of the first occurrence, -1: none
Blob = DeclareSort('Blob')                     # value of an untyped element of known size
# ---- doubles: comparisons exact (IEEE), arithmetic uninterpreted
dadd = Function('dadd', D, D, D); dmul = Function('dmul', D, D, D); dsub = Function('dsub', D, D, D)
ddiv = Function('ddiv', D, D, D); i2d = Function('i2d', I, D); d2i = Function('d2i', D, I)

def ord_args(a, b):
    return (a, b) if a.get_id() <= b.get_id() else (b, a)
def DAdd(a, b): return dadd(*ord_args(a, b))
def DMul(a, b): return dmul(*ord_args(a, b))

UCHAR_MAX = 255; PTRMAX = 2**47

NT = {'OP': 0, 'CONST': 1, 'VAR': 2}   # overwritten from the source's enumerators

def FA(vs, body, pats=None):
    if pats is None: return ForAll(vs, body)
    return ForAll(vs, body, patterns=pats)

def base_axioms():
    T, T2 = Consts('T T2', Tree); s, = Consts('s', Snap),
    s = Const('s', Snap); p, i, j, k = Ints('p i j k'); x, y = Consts('x y', Str)
    OP, CO, VA = NT['OP'], NT['CONST'], NT['VAR']
    ax = [TNull != TGone]
    ax.append(FA([s, p], Implies(node(s, p), And(p > 0, p < PTRMAX, tv(s, p) != TNull, Or(kind(tv(s, p)) == OP, kind(tv(s, p)) == CO, kind(tv(s, p)) == VA))), [node(s, p)]))
    ax.append(FA([s, p, i], Implies(And(node(s, p), kind(tv(s, p)) == OP, 0 <= i, i < nk(tv(s, p))),
              And(tv(s, cptr(s, p, i)) == kid(tv(s, p), i), cptr(s, p, i) >= 0, cptr(s, p, i) < PTRMAX,
                  (kid(tv(s, p), i) == TNull) == (cptr(s, p, i) == 0),
                  Implies(kid(tv(s, p), i) != TNull, node(s, cptr(s, p, i))))), [cptr(s, p, i)]))
    ax.append(FA([T], And(0 <= nk(T), nk(T) < 2**44), [nk(T)]))
    ax.append(FA([T], And(0 <= tok(T), tok(T) < 2**64), [tok(T)]))
    ax.append(FA([T], And(0 <= vid(T), vid(T) < 2**64), [vid(T)]))
    ax.append(FA([T], And(0 <= opp(T), opp(T) < PTRMAX, Implies(kind(T) == OP, And(validop(opp(T)), opp(T) > 0))), [opp(T)]))
    ax.append(FA([T, i], kid(T, i) != TGone, [kid(T, i)]))
    # wf: no missing operand anywhere
    ax.append(FA([T], Implies(wf(T), T != TNull), [wf(T)]))
    ax.append(FA([T, i], Implies(And(wf(T), kind(T) == OP, 0 <= i, i < nk(T)), wf(kid(T, i))), [MultiPattern(wf(T), kid(T, i))]))
    # operators
    ax.append(FA([p], And(0 <= opid(p), opid(p) < 2**64), [opid(p)]))
    ax.append(FA([p], And(0 <= oparity(p), oparity(p) < 2**64), [oparity(p)]))
    ax.append(FA([p], And(0 <= opprec(p), opprec(p) < 256), [opprec(p)]))
    ax.append(FA([p], And(0 <= opplace(p), opplace(p) < 4), [opplace(p)]))
    ax.append(FA([p], And(0 <= opassoc(p), opassoc(p) < 2), [opassoc(p)]))
    ax.append(FA([p], And(0 < opname(p), opname(p) < PTRMAX), [opname(p)]))
    # strings
    ax.append(FA([x], And(slen(x) >= 0, slen(x) < 2**44), [slen(x)]))
    ax.append(FA([x, i], And(sch(x, i) >= -128, sch(x, i) <= 127, Implies(And(0 <= i, i < slen(x)), sch(x, i) != 0), Implies(i == slen(x), sch(x, i) == 0)), [sch(x, i)]))
    ax.append(FA([x, i], Implies(And(0 <= i, i <= slen(x)), slen(sdrop(x, i)) == slen(x) - i), [sdrop(x, i)]))
    ax.append(FA([x, i, j], Implies(And(0 <= i, i <= slen(x), 0 <= j), sch(sdrop(x, i), j) == sch(x, i + j)), [sch(sdrop(x, i), j)]))
    ax.append(FA([s, p], Implies(cstr(s, p), And(p > 0, p < PTRMAX)), [cstr(s, p)]))
    return ax

def tree_ext(a, b):
    """sufficient condition for a == b (trees are inductive values)"""
    i = Int('i!ext')
    OP, CO, VA = NT['OP'], NT['CONST'], NT['VAR']
    return And(a != TNull, b != TNull, kind(a) == kind(b), tok(a) == tok(b),
               Or(And(kind(a) == CO, cval(a) == cval(b)),
                  And(kind(a) == VA, nm(a) == nm(b), vid(a) == vid(b)),
                  And(kind(a) == OP, opp(a) == opp(b), nk(a) == nk(b),
                      ForAll([i], Implies(And(0 <= i, i < nk(a)), kid(a, i) == kid(b, i)), patterns=[kid(a, i), kid(b, i)]))))
