"""Vocabulary of strings and of string maps (abstract value of a trie)."""
from .base import *
from .tree import counters
slen, sch, sdrop = lg.slen, lg.sch, lg.sdrop
spre = Function('spre', Str, I, Str)       # first characters
snoc = Function('snoc', Str, I, Str)       # one more character
semp = Const('semp', Str)
TrieM = z3.DeclareSort('TrieM')
has = Function('has', TrieM, Str, z3.BoolSort())     # contained strings
lpf = Function('lpf', TrieM, Str, I)                 # length of the longest contained prefix
x_, y_, m_ = Const('x!', Str), Const('y!', Str), Const('m!', TrieM)
k_, j_ = Ints('k! j!')
def ax_str():
    return [
        slen(semp) == 0,
        ForAll([x_], Implies(slen(x_) == 0, x_ == semp), patterns=[slen(x_)]),
        ForAll([x_, k_], Implies(And(0 <= k_, k_ <= slen(x_)), slen(spre(x_, k_)) == k_), patterns=[spre(x_, k_)]),
        ForAll([x_, k_, j_], Implies(And(0 <= j_, j_ < k_, k_ <= slen(x_)), sch(spre(x_, k_), j_) == sch(x_, j_)), patterns=[sch(spre(x_, k_), j_)]),
        ForAll([x_, k_], Implies(k_ == slen(x_), spre(x_, k_) == x_), patterns=[spre(x_, k_)]),
        ForAll([x_, k_], Implies(k_ == 0, And(spre(x_, k_) == semp, sdrop(x_, k_) == x_)), patterns=[spre(x_, k_)]),
        ForAll([x_, k_], Implies(k_ == 0, sdrop(x_, k_) == x_), patterns=[sdrop(x_, k_)]),
    ]
def ax_lpf():
    """definition of the longest contained prefix"""
    v = lpf(m_, x_)
    return [ForAll([m_, x_], And(0 <= v, v <= slen(x_), Implies(v > 0, has(m_, spre(x_, v)))), patterns=[v]),
            ForAll([m_, x_, k_], Implies(And(lpf(m_, x_) < k_, k_ <= slen(x_)), Not(has(m_, spre(x_, k_)))), patterns=[MultiPattern(lpf(m_, x_), spre(x_, k_))])]
from z3 import MultiPattern
spfx, sfind, sarr = lg.spfx, lg.sfind, lg.sarr
a_ = Const('a!s', z3.ArraySort(I, I)); o_ = Int('o!s')
sdiff = Function('sdiff', Str, Str, I)
def ax_pfx():
    return [ForAll([x_, y_], spfx(x_, y_) == And(slen(x_) <= slen(y_), ForAll([k_], Implies(And(0 <= k_, k_ < slen(x_)), sch(x_, k_) == sch(y_, k_)), patterns=[sch(x_, k_), sch(y_, k_)])), patterns=[spfx(x_, y_)])]
def same(x, y): return Or(x == y, slen(x) != slen(y), And(0 <= sdiff(x, y), sdiff(x, y) < slen(x), sch(x, sdiff(x, y)) != sch(y, sdiff(x, y))))
def ax_cmp():
    """strings are determined by their characters (compared strings)"""
    return [ForAll([x_, y_], same(x_, y_), patterns=[lg.scmp(x_, y_)])]
def ax_sarr():
    """strings are determined by their characters (text in memory and text of a specification)"""
    return [ForAll([a_, o_, y_, k_], same(sarr(a_, o_), sdrop(y_, k_)), patterns=[MultiPattern(sarr(a_, o_), sdrop(y_, k_))])]

# character classes of the tokenizer
def isdig(c): return Or(And(c >= ord('0'), c <= ord('9')), c == ord('.'))
def islet(c): return Or(And(c >= ord('A'), c <= ord('Z')), And(c >= ord('a'), c <= ord('z')), c == ord('_'), c == ord('['), c == ord(']'))
UF = 'src/util/string_util.c'
def charpred(name, text, f):
    @contract(name, UF, props=['C01'], text=text)
    def g(S):
        yield
        S.result(f(S.a[0]), text)
charpred('is_digit', 'digit or dot', isdig)
charpred('is_letter', 'letter, underscore or bracket', islet)
charpred('is_space', 'blank', lambda c: c == 32)

@contract('begins_with', UF, props=['C18', 'C17', 'C14', 'C19'], text='the first string is a prefix of the second', axioms=lambda: ax_pfx())
def begins_with(S):
    p, s = S.str(S.a[0]), S.str(S.a[1]); yield
    S.result(spfx(p, s), 'prefix')
def isstr(s, t): return And([slen(s) == len(t)] + [sch(s, i) == ord(c) for i, c in enumerate(t)])
def strpred(name, text, *alts):
    @contract(name, UF, props=['C02', 'C03'], text=text, axioms=lambda: ax_cmp())
    def g(S):
        s = S.str(S.a[0]); yield
        S.result(Or([isstr(s, a) for a in alts]), text)
strpred('is_opening_parenthesis', 'opening parenthesis or brace', '(', '{')
strpred('is_closing_parenthesis', 'closing parenthesis or brace', ')', '}')
strpred('is_delimiter', 'comma', ',')
