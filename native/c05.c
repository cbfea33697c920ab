// Copy, equality, listing, search and release of trees against the tree model
#include "tm.h"
static const char *names[] = {"x", "y", "z", "xx"};
static TM *rt(int d)
{
    TM *t = tm_random(d); return t;
}
static void fix_vars(TM *t) { if (t->kind == NTYPE_VARIABLE) { snprintf(t->name, 24, "%s", names[rnd(4)]); } for (size_t i = 0; i < t->n; i++) fix_vars(t->k[i]); }
static size_t npool; static void pool_vars(TM *t) { if (t->kind == NTYPE_VARIABLE) { size_t v = rnd(npool); sprintf(t->name, "v%c%c", 'a' + (int)(v % 26), 'a' + (int)(v / 26)); } for (size_t i = 0; i < t->n; i++) pool_vars(t->k[i]); }
static bool equals(const TM *a, const TM *b)
{
    if (a->kind != b->kind) return false;
    if (a->kind == NTYPE_CONSTANT) return a->val == b->val;
    if (a->kind == NTYPE_VARIABLE) return !strcmp(a->name, b->name) && a->id == b->id;
    if (a->op->id != b->op->id || a->n != b->n) return false;
    for (size_t i = 0; i < a->n; i++) if (!equals(a->k[i], b->k[i])) return false;
    return true;
}
static TM *pick(TM *t) { while (t->n && chance(75)) t = t->k[rnd(t->n)]; return t; }
// a small change somewhere
static void mutate(TM *t)
{
    t = pick(t);
    if (t->kind == NTYPE_CONSTANT) { if (chance(80)) t->val += chance(50) ? 1 : 1e-9; else { t->kind = NTYPE_VARIABLE; strcpy(t->name, "x"); t->id = 0; } }
    else if (t->kind == NTYPE_VARIABLE) { switch (rnd(4)) { case 0: strcpy(t->name, names[rnd(4)]); break; case 1: if (strlen(t->name) < 78) strcat(t->name, "x"); break; case 2: t->id++; break; default: t->kind = NTYPE_CONSTANT; t->val = 1; } }
    else switch (rnd(4))
    {
        case 0: t->op = os_op[rnd(os_n)]; break;
        case 1: if (t->n) { tm_free(t->k[t->n - 1]); t->n--; } break;
        case 2: if (t->n) { TM *o = t->k[0]; t->k[0] = t->k[t->n - 1]; t->k[t->n - 1] = o; } break;
        default: t->tok++; break;
    }
}
static size_t vars(const TM *t, const TM **o, size_t c) { if (t->kind == NTYPE_VARIABLE) o[c++] = t; for (size_t i = 0; i < t->n; i++) c = vars(t->k[i], o, c); return c; }
static size_t walk_vars(Node **n, Node ***o, size_t c) { if (get_type(*n) == NTYPE_VARIABLE) o[c++] = n; else if (get_type(*n) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(*n); i++) c = walk_vars(get_child_addr(*n, i), o, c); return c; }
static Node **first_op(Node **n, const Operator *op) { if (get_type(*n) != NTYPE_OPERATOR) return NULL; if (get_op(*n) == op) return n; for (size_t i = 0; i < get_num_children(*n); i++) { Node **r = first_op(get_child_addr(*n, i), op); if (r) return r; } return NULL; }
static void one(TM *a)
{
    CASE("%s", tm_str(a));
    Node *t = tm_build(a);
    // copy
    Node *c = tree_copy(t); TM *m = tm_take(c);
    if (!tm_eq(m, a, 2)) FAIL("copy is %s", tm_str(m));
    tm_free(m); m = tm_take(t); if (!tm_eq(m, a, 2)) FAIL("copying changed the tree"); tm_free(m);
    if (tree_equals(t, c) != equals(a, a)) FAIL("copy does not compare equal");
    if (tree_equals(NULL, t) || tree_equals(t, NULL)) FAIL("NULL equals a tree");
    if (tree_copy(NULL) != NULL) FAIL("copy of NULL");
    // equality with a changed copy
    TM *b = tm_copy(a); int k = rnd(3); for (int i = 0; i < k; i++) mutate(b);
    Node *bn = tm_build(b);
    CASE("%s with %s", tm_str(a), tm_str(b));
    if (tree_equals(t, bn) != equals(a, b) || tree_equals(bn, t) != equals(a, b)) FAIL("equality should be %d", equals(a, b));
    // variables
    size_t sz = tm_size(a); const TM **vs = malloc((sz + 1) * sizeof *vs); size_t nv = vars(a, vs, 0);
    if (count_all_variable_nodes(t) != nv) FAIL("%zu variable nodes counted instead of %zu", count_all_variable_nodes(t), nv);
    if (count_all_variable_nodes(NULL) != 0) FAIL("NULL has variables");
    Node ***addr = malloc((sz + 1) * sizeof *addr); walk_vars(&t, addr, 0);
    for (int q = 0; q < 5; q++)
    {
        const char *nm = q < 4 ? names[q] : "nope"; size_t want = 0, pos[1000];
        for (size_t i = 0; i < nv; i++) if (!strcmp(vs[i]->name, nm)) pos[want++] = i;
        Node ***o = malloc((want + 1) * sizeof *o);
        size_t got = get_variable_nodes((const Node**)&t, nm, want, want ? o : NULL);
        if (got != want) FAIL("%zu nodes of '%s' instead of %zu", got, nm, want);
        for (size_t i = 0; i < want; i++) if (o[i] != addr[pos[i]]) FAIL("%zu-th node of '%s' is wrong", i, nm);
        size_t small = rnd(want + 1); Node ***o2 = malloc(small * sizeof *o2 + 1);
        if (get_variable_nodes((const Node**)&t, nm, small, o2) != want) FAIL("number of nodes of '%s' depends on the buffer", nm);
        for (size_t i = 0; i < small; i++) if (o2[i] != addr[pos[i]]) FAIL("%zu-th node of '%s' is wrong with a small buffer", i, nm);
        if (get_variable_nodes((const Node**)&t, nm, 0, NULL) != want) FAIL("counting '%s'", nm);
        free(o); free(o2);
    }
    // distinct variables in order
    const char *dv[1000]; size_t nd = 0;
    for (size_t i = 0; i < nv; i++) { size_t j = 0; while (j < nd && strcmp(dv[j], vs[i]->name)) j++; if (j == nd) dv[nd++] = vs[i]->name; }
    const char **lv = malloc((nd + 1) * sizeof *lv); bool suff = chance(50);
    size_t got = list_variables(t, nd, lv, chance(80) ? &suff : NULL);
    if (got != nd) FAIL("%zu distinct variables instead of %zu", got, nd);
    for (size_t i = 0; i < nd; i++) if (strcmp(lv[i], dv[i])) FAIL("%zu-th distinct variable is '%s' instead of '%s'", i, lv[i], dv[i]);
    suff = false; list_variables(t, nd, lv, &suff); if (!suff) FAIL("buffer reported too small");
    for (size_t i = 0; i < nv; i++) { size_t j = 0; while (strcmp(dv[j], vs[i]->name)) j++; if (get_id(*addr[i]) != j) FAIL("id of '%s' is %zu instead of %zu", vs[i]->name, get_id(*addr[i]), j); }
    TM *chk = tm_take(t); if (!tm_eq(chk, a, 0)) FAIL("listing variables changed the tree"); tm_free(chk);
    if (nd > 0) { size_t s = rnd(nd); const char **l2 = malloc(s * sizeof *l2 + 1); suff = true; if (list_variables(t, s, l2, &suff) != s || suff) FAIL("too small buffer for %zu variables not reported", nd); for (size_t i = 0; i < s; i++) if (strcmp(l2[i], dv[i])) FAIL("variable %zu with a small buffer", i); free(l2); }
    // numbering by a given list
    const char *given[] = {"xx", "z", "x"};
    Node *cp = tree_copy(t); size_t before[1000]; Node ***ca = malloc((sz + 1) * sizeof *ca); walk_vars(&cp, ca, 0);
    for (size_t i = 0; i < nv; i++) before[i] = get_id(*ca[i]);
    size_t g = rnd(4); tree_copy_IDs(cp, g, given);
    for (size_t i = 0; i < nv; i++) { size_t w = before[i]; for (size_t j = g; j-- > 0;) if (!strcmp(given[j], vs[i]->name)) w = j; if (get_id(*ca[i]) != w) FAIL("copied id of '%s'", vs[i]->name); }
    free(ca); free_tree(cp);
    for (size_t i = 0; i < os_n; i++) if (find_op((const Node**)&t, os_op[i]) != first_op(&t, os_op[i])) FAIL("search for operator %s", os_op[i]->name);
    // the copy is independent
    free(addr); free(lv); free(vs);
    free_tree(t); m = tm_take(c); if (!tm_eq(m, a, 2)) FAIL("copy depends on the original"); tm_free(m);
    free_tree(c); free_tree(bn); tm_free(b);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    while (h_more())
    {
        os_make(false);
        for (int i = 0; i < 150 && os_n; i++) { TM *a = rt(rnd(6)); if (chance(60)) fix_vars(a); else if (chance(50)) { npool = 1 + dim2(20, 200); pool_vars(a); } if (tm_size(a) < 300) one(a); tm_free(a); }
        ctx_destroy(&oc);
    }
    free_tree(NULL);
    return h_done("trees (and pairs of trees), hashed by their text");
}
