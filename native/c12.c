// Linked lists against an array model; exhaustive short edit histories, then random long ones
#include "h.h"
#include "util/linked_list.h"
#include "util/iterator.h"
static int M[4000]; static size_t n;
static void check(LinkedList *l)
{
    if (list_count(l) != n) FAIL("count %zu instead of %zu", list_count(l), n);
    ListNode *c = l->first; size_t i = 0;
    while (c != NULL && i < n) { if (*(int*)listnode_get_data(c) != M[i]) FAIL("forward element %zu", i); c = listnode_get_next(c); i++; }
    if (c != NULL || i != n) FAIL("forward traversal has wrong length");
    for (i = 0; i < n; i++) if (*(int*)list_get_at(l, i) != M[i]) FAIL("indexed element %zu", i);
    // backward: the header of a node is {next, previous}
    c = l->last; i = n;
    while (c != NULL && i > 0) { i--; if (*(int*)listnode_get_data(c) != M[i]) FAIL("backward element %zu", i); if (list_get_node(l, i) != c) FAIL("node %zu", i); c = ((ListNode**)c)[1]; }
    if (c != NULL || i != 0) FAIL("backward traversal has wrong length");
    LinkedListIterator it = list_get_iterator(l);
    for (int r = 0; r < 2; r++)
    {
        for (i = 0; i < n; i++) { int *p = iterator_get_next((Iterator*)&it); if (!p || *p != M[i]) FAIL("iterator at %zu", i); }
        if (iterator_get_next((Iterator*)&it) != NULL) FAIL("iterator does not end");
        iterator_reset((Iterator*)&it);
        if (r == 0 && n)
        {
            for (i = rnd(n < 5 ? n : 5) + 1; i > 0; i--) iterator_get_next((Iterator*)&it);
            iterator_reset((Iterator*)&it);
        }
    }
}
// payloads of any size are copied completely
static void payloads(void)
{
    static unsigned char E[40][300]; size_t es = 1 + dim2(40, 299), k = rnd(40); n = 0;
    CASE("payloads of %zu bytes, %zu elements", es, k);
    LinkedList l = list_create(es);
    for (size_t i = 0; i < k; i++)
    {
        unsigned char b[300]; for (size_t j = 0; j < es; j++) b[j] = (unsigned char)rnd64();
        size_t at = rnd(n + 1);
        if (at == n) list_append(&l, b); else list_insert_at(&l, at, b);
        memmove(E + at + 1, E + at, (n - at) * sizeof *E); memcpy(E[at], b, es); n++;
        if (chance(20)) { size_t d = rnd(n); list_delete_at(&l, d); memmove(E + d, E + d + 1, (n - d - 1) * sizeof *E); n--; }
        for (size_t j = 0; j < n; j++) if (memcmp(list_get_at(&l, j), E[j], es)) FAIL("payload of element %zu", j);
    }
    if (list_count(&l) != n) FAIL("count");
    list_destroy(&l);
}
static char desc[20000]; static size_t dl; static int next_val;
static void D(const char *f, ...) { va_list a; va_start(a, f); if (dl < sizeof desc - 64) dl += vsnprintf(desc + dl, 64, f, a); va_end(a); }
static void m_ins(size_t i, int x) { memmove(M + i + 1, M + i, (n - i) * sizeof *M); M[i] = x; n++; }
static void m_del(size_t i) { memmove(M + i, M + i + 1, (n - i - 1) * sizeof *M); n--; }
static void op(LinkedList *l, int o, size_t at)
{
    int x = next_val++; ListNode *r = NULL;
    switch (o)
    {
        case 0: D(" app"); CASE("%s", desc); r = list_append(l, &x); m_ins(n, x); at = n - 1; break;
        case 1: at %= n + 1; D(" ins%zu", at); CASE("%s", desc); r = list_insert_at(l, at, &x); m_ins(at, x); break;
        case 2: at %= n + 1; D(" after%zu", at); CASE("%s", desc); r = list_insert_after(l, at == 0 ? NULL : list_get_node(l, at - 1), &x); m_ins(at, x); break;
        case 3: if (!n) return; at %= n; D(" del%zu", at); CASE("%s", desc); list_delete_at(l, at); m_del(at); break;
        case 4: if (!n) return; at %= n; D(" deln%zu", at); CASE("%s", desc); list_delete_node(l, list_get_node(l, at)); m_del(at); break;
        case 5: at %= n + 1; D(" insnull%zu", at); CASE("%s", desc); r = list_insert_at(l, at, NULL); *(int*)listnode_get_data(r) = x; m_ins(at, x); break;
    }
    if (r && *(int*)listnode_get_data(r) != x) FAIL("returned node");
    if (r && list_get_node(l, at) != r) FAIL("returned node is not at its index");
    check(l);
}
static void exhaustive(int depth, int *os, size_t *as, int k)
{
    if (k == depth)
    {
        n = 0; dl = 0; desc[0] = 0; next_val = 1;
        LinkedList l = list_create(sizeof(int)); check(&l);
        for (int i = 0; i < depth; i++) op(&l, os[i], as[i]);
        list_destroy(&l);
        return;
    }
    for (int o = 0; o < 5; o++) for (size_t a = 0; a < (o == 0 ? 1 : 4); a++) { os[k] = o; as[k] = a; exhaustive(depth, os, as, k + 1); }
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    int os[8]; size_t as[8];
    if (h_worker == 0) exhaustive(3, os, as, 0);
    while (h_more())
    {
        n = 0; dl = 0; desc[0] = 0; next_val = 1;
        LinkedList l = list_create(sizeof(int)); int k = (int)dim2(80, 400), bias = rnd(3);
        for (int i = 0; i < k; i++) op(&l, bias == 0 ? (int)rnd(6) : chance(55) ? (int)rnd(3) : 3 + rnd(2), rnd(1000));
        list_destroy(&l);
        payloads();
    }
    return h_done("edit histories (sequence of operations with positions), hashed by their text");
}
