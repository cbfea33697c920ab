from .base import *
FILE = 'src/client/core/history.c'
val = Function("unp:('double',)", Blob, D)
i = Int('i!h')

@contract('history_get', FILE, props=['C15'], text='index < count: true and the (index+1)-th last entry; otherwise false, output untouched')
def history_get(S):
    a = S.glob('ans_vec'); v = vec(S, a, es=IntVal(8)); old = S.cell(S.a[1], DOUBLE); yield
    w = vec(S, a, es=IntVal(8), count=v.count)
    S.req(And(w.buf == v.buf, w.bs == v.bs), 'history is unchanged')
    S.req(fa(i, 0, v.count, Select(w.A, i) == Select(v.A, i), [Select(w.A, i)]), 'history is unchanged')
    new = S.cell(S.a[1], DOUBLE)
    S.req(S.ret == (S.a[0] < v.count), 'succeeds exactly for existing entries')
    S.req(Implies(S.a[0] < v.count, new == val(Select(v.A, v.count - 1 - S.a[0]))), 'k-th last result')
    S.req(Implies(S.a[0] >= v.count, new == old), 'output untouched on failure')

@contract('history_add', FILE, props=['C15'], text='appends the value, keeps all earlier entries')
def history_add(S):
    a = S.glob('ans_vec'); v = vec(S, a, es=IntVal(8)); S.req(v.count < ASZ); yield
    w = vec(S, a, es=IntVal(8), count=lin_norm(v.count + 1))
    S.req(fa(i, 0, v.count, Select(w.A, i) == Select(v.A, i), [Select(w.A, i)]), 'earlier entries stay')
    S.req(val(Select(w.A, v.count)) == S.a[0], 'the value is the newest entry')

@contract('init_history', FILE, props=['C15'], text='empty history')
def init_history(S):
    a = S.glob('ans_vec'); S.obj(a, 'Vector'); yield
    w = vec(S, a, es=IntVal(8), count=IntVal(0))

@contract('unload_history', FILE, props=['C15'], text='releases the history')
def unload_history(S):
    a = S.glob('ans_vec'); vec(S, a, es=IntVal(8)); yield
    S.obj(a, 'Vector')
