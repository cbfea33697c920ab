from .base import *
FILE = 'src/util/vector.c'

@contract('vec_create', FILE, props=['C11'], text='new empty vector with room for start_size elements')
def vec_create(S):
    es, n = S.a
    S.req(And(es > 0, es < 2**32, n < 2**44), 'sizes are sensible')
    yield
    if S.inh:
        b = S.fresh('buf', I); S.assume(And(b >= 0, b < lg.PTRMAX))
        S.ret = {'elem_size': es, 'elem_count': IntVal(0), 'buffer_size': n, 'buffer': b}
    r = S.ret
    S.req(And(r['elem_size'] == es, r['elem_count'] == 0, r['buffer_size'] == n), 'empty vector of the requested size')
    S.req(Implies(n > 0, r['buffer'] != 0), 'buffer is allocated')
    if S.branch(r['buffer'] == 0): S.req(n == 0, 'no buffer only for size 0')
    else:
        S.blk(r['buffer'], blobT(es), n); S.tok(r['buffer'], es * n)

i = Int('i!v')
def same_prefix(S, w, v, n):
    S.req(fa(i, 0, n, Select(w.A, i) == Select(v.A, i), [Select(w.A, i)]), 'elements are kept in place')

@contract('vec_destroy', FILE, props=['C11'], text='frees the buffer, nothing else')
def vec_destroy(S):
    v = vec(S, S.a[0])
    yield
    o = S.obj(S.a[0], 'Vector')

@contract('vec_clear', FILE, props=['C11'])
def vec_clear(S):
    v = vec(S, S.a[0]); yield
    w = vec(S, S.a[0], es=v.es, count=IntVal(0)); S.req(And(w.bs == v.bs, w.buf == v.buf), 'buffer stays')

@contract('vec_trim', FILE, props=['C11'])
def vec_trim(S):
    v = vec(S, S.a[0]); yield
    w = vec(S, S.a[0], es=v.es, count=v.count); same_prefix(S, w, v, v.count)
    S.req(Implies(w.bs > 0, w.buf != 0), 'buffer is allocated')

@contract('vec_ensure_size', FILE, props=['C11'])
def vec_ensure_size(S):
    v = vec(S, S.a[0]); yield
    w = vec(S, S.a[0], es=v.es, count=v.count)
    S.req(w.bs >= S.a[1], 'room for the requested number of elements'); same_prefix(S, w, v, v.count)
    S.req(Implies(w.bs > 0, w.buf != 0), 'buffer is allocated')

@contract('vec_get', FILE, props=['C11'])
def vec_get(S):
    v = vec_ro(S, S.a[0]); S.req(S.a[1] <= v.bs, 'index within the vector')
    yield
    S.result(lin_norm(v.buf + v.es * S.a[1]), 'address of the element with this index')

@contract('vec_count', FILE, props=['C11'])
def vec_count(S):
    v = vec_ro(S, S.a[0]); yield
    S.result(v.count, 'number of elements')

def push(S, p, num, B):
    v = vec(S, p); S.req(And(num >= 0, num < ASZ, v.count < ASZ), 'number of elements is sensible')
    return v
@contract('vec_push_empty', FILE, props=['C11'])
def vec_push_empty(S):
    v = vec(S, S.a[0]); S.req(v.count < ASZ); yield
    w = vec(S, S.a[0], es=v.es, count=lin_norm(v.count + 1), nn=lambda w: w.buf != 0); same_prefix(S, w, v, v.count)
    S.result(lin_norm(w.buf + v.es * v.count), 'address of the new last element')

@contract('vec_push_many', FILE, props=['C11'])
def vec_push_many(S):
    v = vec(S, S.a[0]); num = S.a[1]
    S.req(And(v.count < ASZ, num < ASZ), 'number of elements is sensible')
    B = S.blk(S.a[2], blobT(v.es), num, ro=True)
    yield
    w = vec(S, S.a[0], es=v.es, count=lin_norm(v.count + num), nn=lambda w: Implies(w.bs > 0, w.buf != 0)); same_prefix(S, w, v, v.count)
    S.req(fa(i, v.count, v.count + num, Select(w.A, i) == Select(B, i - v.count), [Select(w.A, i)]), 'new elements are appended in order')
    S.result(lin_norm(w.buf + v.es * v.count), 'address of the first new element')

@contract('vec_push', FILE, props=['C11'])
def vec_push(S):
    v = vec(S, S.a[0]); S.req(v.count < ASZ)
    B = S.blk(S.a[1], blobT(v.es), IntVal(1), ro=True)
    yield
    w = vec(S, S.a[0], es=v.es, count=lin_norm(v.count + 1), nn=lambda w: w.buf != 0); same_prefix(S, w, v, v.count)
    S.req(Select(w.A, v.count) == Select(B, 0), 'the element is appended')
    S.result(lin_norm(w.buf + v.es * v.count), 'address of the new element')

@contract('vec_pop', FILE, props=['C11'])
def vec_pop(S):
    v = vec(S, S.a[0]); yield
    if S.branch(v.count == 0):
        w = vec(S, S.a[0], es=v.es, count=v.count, buf=v.buf, bs=v.bs); S.result(IntVal(0), 'nothing to pop')
    else:
        w = vec(S, S.a[0], es=v.es, count=lin_norm(v.count - 1), buf=v.buf, bs=v.bs)
        same_prefix(S, w, v, v.count)
        S.result(lin_norm(v.buf + v.es * (v.count - 1)), 'address of the popped last element')

@contract('vec_peek', FILE, props=['C11'])
def vec_peek(S):
    v = vec_ro(S, S.a[0]); yield
    if S.branch(v.count == 0): S.result(IntVal(0))
    else: S.result(lin_norm(v.buf + v.es * (v.count - 1)), 'address of the last element')

@contract('get_next', FILE, props=['C11'])
def vec_iter_next(S):
    it = S.obj(S.a[0], 'VectorIterator'); v = vec_ro(S, it['vector'])
    S.req(And(it['curr_index'] >= -1, it['curr_index'] < v.count, v.count < ASZ), 'iterator is at a position of the vector or before it')
    yield
    w = S.obj(S.a[0], 'VectorIterator')
    S.req(And(w['vector'] == it['vector'], w['base']['get_next'] == it['base']['get_next'], w['base']['reset'] == it['base']['reset'],
              w['curr_index'] == it['curr_index'] + 1), 'iterator advances by one')
    if S.branch(it['curr_index'] + 1 < v.count): S.result(lin_norm(v.buf + v.es * (it['curr_index'] + 1)), 'address of the next element')
    else: S.result(IntVal(0), 'end of iteration')

@contract('reset', FILE, props=['C11'])
def vec_iter_reset(S):
    it = S.obj(S.a[0], 'VectorIterator'); yield
    w = S.obj(S.a[0], 'VectorIterator')
    S.req(And(w['vector'] == it['vector'], w['base']['get_next'] == it['base']['get_next'], w['base']['reset'] == it['base']['reset'], w['curr_index'] == -1), 'iterator is before the first element')

@contract('vec_get_iterator', FILE, props=['C11'])
def vec_get_iterator(S):
    v = vec_ro(S, S.a[0]); yield
    if S.inh: S.ret['vector'] = S.a[0]; S.ret['curr_index'] = IntVal(-1)
    S.req(And(S.ret['vector'] == S.a[0], S.ret['curr_index'] == -1), 'iterator is before the first element')
    S.req(And(S.ret['base']['get_next'] == S.run.fn_val('get_next', FILE), S.ret['base']['reset'] == S.run.fn_val('reset', FILE)), 'iterator functions of vectors')
