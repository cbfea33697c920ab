from .base import *
FILE = 'src/util/linked_list.c'
k = Int('i!l')

class L: pass
AIk = z3.ArraySort(I, I)
linked = Function('linked', AIk, I, AIk, AIk, z3.BoolSort())
def links(c, o, S=None):
    """doubly linked, in order, without other nodes (for clients: in a shape that does not make the solver walk along the list)"""
    n, A = c.n, c.A
    if S is not None and S.run.e.c.file != FILE:
        r = And(o['count'] == n, o['first'] == If(n > 0, Select(A, 0), IntVal(0)), o['last'] == If(n > 0, Select(A, n - 1), IntVal(0)), Or(linked(A, n, c.tree['next'], c.tree['previous']), n == 0))
        if S.inh: r = And(r, ForAll([k], Implies(And(0 <= k, k < n), Select(c.tree['next'], k) == If(k + 1 < n, Select(A, k + 1), IntVal(0))), patterns=[Select(c.tree['next'], k)]))
        return r
    return And(o['count'] == n, o['first'] == If(n > 0, Select(A, 0), IntVal(0)), o['last'] == If(n > 0, Select(A, n - 1), IntVal(0)),
        ForAll([k], Implies(And(0 <= k, k < n), And(Select(c.tree['next'], k) == If(k + 1 < n, Select(A, k + 1), IntVal(0)),
                                                     Select(c.tree['previous'], k) == If(k > 0, Select(A, k - 1), IntVal(0)))),
               patterns=[Select(A, k), Select(c.tree['next'], k), Select(c.tree['previous'], k)] if False else [Select(A, k)]),
        ForAll([k], Implies(And(0 <= k, k < n), And(Select(c.tree['next'], k) == If(k + 1 < n, Select(A, k + 1), IntVal(0)))), patterns=[Select(c.tree['next'], k)]),
        ForAll([k], Implies(And(0 <= k, k < n), And(Select(c.tree['previous'], k) == If(k > 0, Select(A, k - 1), IntVal(0)))), patterns=[Select(c.tree['previous'], k)]))
def dll(S, p, es=None, ins=None):
    o = S.obj(p, 'LinkedList', {'elem_size': es} if es is not None else None)
    v = L(); v.o = o; v.es = o['elem_size']
    S.req(And(v.es > 0, v.es < 2**32), 'element size is sensible')
    if ins is not None and not S.inh:
        for cid, c in list(S.run.heap.items()):
            if isinstance(c, SeqC) and c.key.eq(lin_norm(p)): S.run.seq_insert(cid, ins[0], ins[1])
    c = S.seq(p, 'ListNode', v.es)
    v.c = c; v.n, v.A, v.X = c.n, c.A, c.tree['$x']
    S.req(links(c, o, S), 'nodes are linked in order in both directions, with exact count, first and last')
    return v
def dll_ro(S, p):
    """read-only use: nothing is consumed"""
    if S.inh:
        return dll(S, p)
    o = S.obj(p, 'LinkedList', ro=True); v = L(); v.o = o; v.es = o['elem_size']
    for c in S.run.heap.values():
        if isinstance(c, SeqC) and (c.key.eq(lin_norm(p)) or S.run.valid(c.key == p)):
            v.c = c; v.n, v.A, v.X = c.n, c.A, c.tree['$x']; break
    else: raise Unsupported('no list known')
    S.run.prove(links(c, o, S), S.label('list is well formed'))
    return v
def same(S, w, v):
    S.req(w.n == v.n, 'same number of nodes')
    S.req(fa(k, 0, v.n, And(Select(w.A, k) == Select(v.A, k), Select(w.X, k) == Select(v.X, k)), [Select(w.A, k)]), 'same nodes and payloads')
    S.req(fa(k, 0, v.n, And(Select(w.X, k) == Select(v.X, k)), [Select(w.X, k)]), 'same payloads')
def inserted(S, w, v, j, ret, x):
    S.req(w.n == v.n + 1, 'one node more')
    S.req(And(Select(w.A, j) == ret, ret != 0), 'the new node is at its index')
    if x is not None: S.req(Select(w.X, j) == x, 'the new node holds the given payload')
    S.req(ForAll([k], Implies(And(0 <= k, k < w.n, k != j), And(Select(w.A, k) == Select(v.A, If(k < j, k, k - 1)), Select(w.X, k) == Select(v.X, If(k < j, k, k - 1)))), patterns=[Select(w.A, k)]), 'all other nodes keep order and payload')
    S.req(ForAll([k], Implies(And(0 <= k, k < w.n, k != j), Select(w.X, k) == Select(v.X, If(k < j, k, k - 1))), patterns=[Select(w.X, k)]), 'all other nodes keep their payload')
def removed(S, w, v, j):
    S.req(w.n == v.n - 1, 'one node less')
    S.req(ForAll([k], Implies(And(0 <= k, k < w.n), And(Select(w.A, k) == Select(v.A, If(k < j, k, k + 1)), Select(w.X, k) == Select(v.X, If(k < j, k, k + 1)))), patterns=[Select(w.A, k)]), 'all other nodes keep order and payload')
    S.req(ForAll([k], Implies(And(0 <= k, k < w.n), Select(w.X, k) == Select(v.X, If(k < j, k, k + 1))), patterns=[Select(w.X, k)]), 'all other nodes keep their payload')

def walk(v):
    """a walking pointer is at the node given by the counter"""
    def f(L):
        seqs = [c for c in L.run.heap.values() if isinstance(c, SeqC)]
        if not seqs: return []
        c = seqs[0]; fs = []
        for kk in sorted(L.plan, key=str):
            x0 = L.pre0.get(kk)
            if kk not in L.cur or x0 is None or x0.sort() != I: continue
            x = L.cur[kk]
            fs += [x == If(c.n > 0, Select(c.A, 0), IntVal(0)), x == If(c.n > 0, Select(c.A, c.n - 1), IntVal(0))]
            for (i, i0) in L.ints:
                if i.eq(x): continue
                for d in (i0 - i, i - i0, c.n - 1 - (i0 - i), c.n - 1 - (i - i0)):
                    fs.append(And(d >= 0, d < c.n, x == Select(c.A, d)))
                    fs.append(If(And(d >= 0, d < c.n), x == Select(c.A, d), x == 0))
        fs.append(ForAll([k], Implies(And(0 <= k, k < c.n), And(Select(c.tree['next'], k) == If(k + 1 < c.n, Select(c.A, k + 1), IntVal(0)))), patterns=[Select(c.tree['next'], k), Select(c.A, k)]))
        fs.append(ForAll([k], Implies(And(0 <= k, k < c.n), And(Select(c.tree['previous'], k) == If(k > 0, Select(c.A, k - 1), IntVal(0)))), patterns=[Select(c.tree['previous'], k), Select(c.A, k)]))
        return fs
    return f

CLIENT = {}       # other views of a list, by the file that uses it: name of the function -> contract
def viewed(f):
    """users with their own view of a list (e.g. as the definitions) get that one"""
    def g(S):
        c = CLIENT.get(S.run.e.c.file, {}).get(S.fn.name) if S.where != 'self' else None
        yield from (c or f)(S)
    g.__name__ = f.__name__; return g
@contract('list_create', FILE, props=['C12'], text='empty list')
def list_create(S):
    S.req(And(S.a[0] > 0, S.a[0] < 2**32)); yield
    r = S.ret
    S.req(And(r['elem_size'] == S.a[0], r['first'] == 0, r['last'] == 0, r['count'] == 0), 'empty list')

@contract('list_destroy', FILE, props=['C12'], text='every node is released once')
def list_destroy(S):
    v = dll(S, S.a[0]); S.inv(walk(v)); yield
    S.obj(S.a[0], 'LinkedList')
    if not S.inh:
        for cid, c in list(S.run.heap.items()):
            if isinstance(c, SeqC):
                S.run.prove(c.n == 0, S.label('all nodes are freed')); del S.run.heap[cid]

@contract('list_get_node', FILE, props=['C12'], text='the index-th node')
def list_get_node(S):
    v = dll(S, S.a[0]); S.req(S.a[1] < v.n, 'index within the list'); S.inv(walk(v)); yield
    w = dll(S, S.a[0], es=v.es); same(S, w, v)
    S.result(Select(w.A, S.a[1]), 'the node with this index')

@contract('list_get_at', FILE, props=['C12'], text='payload of the index-th node')
def list_get_at(S):
    v = dll(S, S.a[0]); S.req(S.a[1] < v.n, 'index within the list'); yield
    w = dll(S, S.a[0], es=v.es); same(S, w, v)
    S.result(Select(w.A, S.a[1]) + 16, 'payload of the node with this index')

@contract('listnode_get_data', FILE, props=['C12'], text='payload follows the header')
@viewed
def listnode_get_data(S):
    S.req(S.a[0] != 0, 'node is not NULL'); yield
    S.result(lin_norm(S.a[0] + 16), 'address of the payload')

def insert_after(S, p, before, data):
    v = dll(S, p); S.req(v.n < ASZ - 2)
    x = None
    if S.branch(data != 0): x = Select(S.blk(data, blobT(v.es), IntVal(1), ro=True), 0)
    return v, x

@contract('list_insert_after', FILE, props=['C12'], text='new node directly after before (at the start when NULL)')
def list_insert_after(S):
    v, x = insert_after(S, S.a[0], S.a[1], S.a[2]); b = S.a[1]
    if S.branch(b == 0): j = IntVal(0)
    else:
        pb = Select(v.c.P, b)
        S.req(And(pb >= 0, pb < v.n, Select(v.A, pb) == b), 'before is a node of the list'); j = pb + 1
    yield
    w = dll(S, S.a[0], es=v.es, ins=(j, S.ret)); inserted(S, w, v, j, S.ret, x)

@contract('list_append', FILE, props=['C12'], text='new last node')
@viewed
def list_append(S):
    v, x = insert_after(S, S.a[0], None, S.a[1]); yield
    w = dll(S, S.a[0], es=v.es); inserted(S, w, v, v.n, S.ret, x)

@contract('list_insert_at', FILE, props=['C12'], text='new node at index')
def list_insert_at(S):
    v, x = insert_after(S, S.a[0], None, S.a[2]); S.req(S.a[1] <= v.n, 'index at most the count'); yield
    w = dll(S, S.a[0], es=v.es); inserted(S, w, v, S.a[1], S.ret, x)

@contract('list_delete_node', FILE, props=['C12'], text='exactly this node is removed and released')
@viewed
def list_delete_node(S):
    v = dll(S, S.a[0]); j = Select(v.c.P, S.a[1])
    S.req(And(S.a[1] != 0, j >= 0, j < v.n, Select(v.A, j) == S.a[1]), 'node belongs to the list'); yield
    w = dll(S, S.a[0], es=v.es); removed(S, w, v, j)

@contract('list_delete_at', FILE, props=['C12'], text='exactly the index-th node is removed')
def list_delete_at(S):
    v = dll(S, S.a[0]); S.req(S.a[1] < v.n, 'index within the list'); yield
    w = dll(S, S.a[0], es=v.es); removed(S, w, v, S.a[1])

@contract('list_count', FILE, props=['C12'], text='number of nodes')
@viewed
def list_count(S):
    v = dll(S, S.a[0]); yield
    w = dll(S, S.a[0], es=v.es); same(S, w, v)
    S.result(v.n, 'number of nodes')

@contract('listnode_get_next', FILE, props=['C12'], text='successor')
@viewed
def listnode_get_next(S):
    o = S.obj(S.a[0], 'ListNode', ro=True); yield
    S.result(o['next'], 'next node')

@contract('get_next', FILE, props=['C12'], text='iteration visits the nodes in order')
def list_next(S):
    it = S.obj(S.a[0], 'LinkedListIterator'); v = dll(S, it['list'])
    c = it['curr_node']; j = Select(v.c.P, c)
    S.req(Or(c == 0, And(j >= 0, j < v.n, Select(v.A, j) == c)), 'iterator is at a node or before the first'); yield
    w = dll(S, it['list'], es=v.es); same(S, w, v)
    nx = S.obj(S.a[0], 'LinkedListIterator')
    pos = If(c == 0, IntVal(0), j + 1)
    S.req(And(nx['list'] == it['list'], nx['base']['get_next'] == it['base']['get_next'], nx['base']['reset'] == it['base']['reset'],
              nx['curr_node'] == If(pos < v.n, Select(v.A, pos), IntVal(0))), 'iterator advances to the successor')
    S.result(If(pos < v.n, Select(v.A, pos) + 16, IntVal(0)), 'payload of the successor, NULL at the end')

@contract('reset', FILE, props=['C12'])
def list_reset(S):
    it = S.obj(S.a[0], 'LinkedListIterator'); yield
    nx = S.obj(S.a[0], 'LinkedListIterator')
    S.req(And(nx['list'] == it['list'], nx['base']['get_next'] == it['base']['get_next'], nx['base']['reset'] == it['base']['reset'], nx['curr_node'] == 0), 'iterator is before the first node')

@contract('list_get_iterator', FILE, props=['C12'])
def list_get_iterator(S):
    yield
    r = S.ret
    S.req(And(r['list'] == S.a[0], r['curr_node'] == 0, r['base']['get_next'] == S.run.fn_val('get_next', FILE), r['base']['reset'] == S.run.fn_val('reset', FILE)), 'iterator before the first node of this list')
