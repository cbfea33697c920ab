// Substitution against the tree model
#include "tm.h"
#include "engine/transformation/transformation.h"
static const char *names[] = {"x", "y", "z", "xx"};
static void fix_vars(TM *t) { if (t->kind == NTYPE_VARIABLE) { snprintf(t->name, 24, "%s", names[rnd(4)]); } for (size_t i = 0; i < t->n; i++) fix_vars(t->k[i]); }
static TM *subst(const TM *t, const char *v, const TM *by, size_t *cnt)
{
    if (t->kind == NTYPE_VARIABLE && !strcmp(t->name, v)) { (*cnt)++; return tm_copy(by); }
    TM *r = malloc(sizeof *r); *r = *t;
    if (t->kind == NTYPE_OPERATOR) { r->k = calloc(t->n + 1, sizeof(TM*)); for (size_t i = 0; i < t->n; i++) r->k[i] = subst(t->k[i], v, by, cnt); }
    return r;
}
static TM *gen(int d) { for (;;) { TM *t = tm_random(d); fix_vars(t); if (tm_size(t) < 150) return t; tm_free(t); } }
// instantiate by ids: list variables splice
static size_t insts(const TM *t, TM **bind[], const size_t *bn, TM **o, size_t c)
{
    if (t->kind == NTYPE_VARIABLE) { for (size_t i = 0; i < bn[t->id]; i++) o[c++] = tm_copy(bind[t->id][i]); return c; }
    TM *r = malloc(sizeof *r); *r = *t;
    if (t->kind == NTYPE_OPERATOR) { r->k = calloc(2000, sizeof(TM*)); r->n = 0; for (size_t i = 0; i < t->n; i++) r->n = insts(t->k[i], bind, bn, r->k, r->n); }
    o[c++] = r; return c;
}
static size_t inst_size(const TM *t, const size_t *bn) { if (t->kind == NTYPE_VARIABLE) return bn[t->id] * 4; size_t s = 1; for (size_t i = 0; i < t->n; i++) s += inst_size(t->k[i], bn); return s; }
static void set_ids(TM *t, bool parent_dyn)
{
    if (t->kind == NTYPE_VARIABLE) { bool list = parent_dyn && chance(60); size_t id = rnd(5); if (list) { t->id = 5 + id; sprintf(t->name, "[L%c]", 'a' + (int)id); } else { t->id = id; sprintf(t->name, "v%c", 'a' + (int)id); } }
    for (size_t i = 0; i < t->n; i++) set_ids(t->k[i], t->op->arity == OP_DYNAMIC_ARITY);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    while (h_more())
    {
        os_make(false);
        for (int i = 0; i < 150 && os_n; i++)
        {
            // variable by tree
            TM *a = gen(rnd(6)), *by = gen(rnd(3)); const char *v = names[rnd(4)]; size_t cnt = 0; TM *want = subst(a, v, by, &cnt);
            CASE("%s with %s := %s", tm_str(a), v, tm_str(by));
            Node *t = tm_build(a), *b = tm_build(by);
            size_t got = replace_variable_nodes(&t, b, v);
            if (got != cnt) FAIL("%zu replacements reported instead of %zu", got, cnt);
            TM *m = tm_take(t), *mb = tm_take(b);
            if (!tm_eq(m, want, 2)) FAIL("result is %s", tm_str(m));
            if (!tm_eq(mb, by, 2)) FAIL("inserted tree changed");
            tm_free(m); tm_free(mb); free_tree(b); m = tm_take(t); if (!tm_eq(m, want, 2)) FAIL("inserted trees are not copies"); tm_free(m);
            // whole tree
            Node *n2 = tm_build(by); tree_replace(&t, n2); if (t != n2) FAIL("tree_replace"); m = tm_take(t); if (!tm_eq(m, by, 2)) FAIL("tree_replace changes the new tree"); tm_free(m);
            free_tree(t); tm_free(want); tm_free(by);
            // operand by list
            if (a->kind == NTYPE_OPERATOR && a->n > 0)
            {
                size_t at = rnd(a->n), k = dim(5); TM *l[50]; const Node *ln[50];
                for (size_t j = 0; j < k; j++) { l[j] = gen(k > 8 ? 0 : 2); ln[j] = tm_build(l[j]); }
                t = tm_build(a); CASE("%s operand %zu by %zu trees", tm_str(a), at, k);
                const Node **buf = malloc(k * sizeof *buf + 1); memcpy(buf, ln, k * sizeof *buf);
                tree_replace_by_list(&t, at, (NodeList){ k, buf });
                if (get_num_children(t) != a->n - 1 + k || get_op(t) != a->op || get_token_index(t) != a->tok) FAIL("node after splicing");
                for (size_t j = 0; j < a->n - 1 + k; j++)
                {
                    TM *w = j < at ? a->k[j] : j < at + k ? l[j - at] : a->k[j - k + 1];
                    m = tm_take(get_child(t, j)); if (!tm_eq(m, w, 2)) FAIL("operand %zu after splicing is %s instead of %s", j, tm_str(m), tm_str(w)); tm_free(m);
                }
                for (size_t j = 0; j < k; j++) { m = tm_take(ln[j]); if (!tm_eq(m, l[j], 2)) FAIL("list changed"); tm_free(m); tm_free(l[j]); free_tree((Node*)ln[j]); }
                free(buf); free_tree(t);
            }
            tm_free(a);
            // instantiation
            TM *tpl = gen(1 + rnd(4)); set_ids(tpl, false);
            if (tpl->kind != NTYPE_VARIABLE || tpl->id < 5)
            {
                TM **bind[10]; size_t bn[10]; Matching mt; memset(&mt, 0, sizeof mt); static TM *orig[10][50]; static const Node *bufs[10][50];
                static char d[8000]; d[0] = 0;
                for (int j = 0; j < 10; j++) { bn[j] = j < 5 ? 1 : dim(4); bind[j] = orig[j]; for (size_t x = 0; x < bn[j]; x++) { orig[j][x] = gen(bn[j] > 6 ? 0 : rnd(2)); bufs[j][x] = tm_build(orig[j][x]); } mt.mapped_nodes[j] = (NodeList){ bn[j], bufs[j] }; sprintf(d + strlen(d), " %d:%zu", j, bn[j]); }
                TM *o[2000]; if (inst_size(tpl, bn) > 1500) { for (int j = 0; j < 10; j++) for (size_t x = 0; x < bn[j]; x++) { free_tree((Node*)bufs[j][x]); tm_free(orig[j][x]); } tm_free(tpl); continue; }
                insts(tpl, bind, bn, o, 0);
                if (tm_size(o[0]) < 1500)
                {
                CASE("template %s binding sizes%s", tm_str(tpl), d);
                t = tm_build(tpl); transform_by_matching(&mt, &t);
                m = tm_take(t); if (!tm_eq(m, o[0], 0)) FAIL("instance is %s instead of %s", tm_str(m), tm_str(o[0])); tm_free(m);
                for (int j = 0; j < 10; j++) { if (mt.mapped_nodes[j].size != bn[j] || mt.mapped_nodes[j].nodes != bufs[j]) FAIL("binding changed"); for (size_t x = 0; x < bn[j]; x++) { m = tm_take(bufs[j][x]); if (!tm_eq(m, orig[j][x], 2)) FAIL("bound tree changed"); tm_free(m); } }
                for (int j = 0; j < 10; j++) for (size_t x = 0; x < bn[j]; x++) free_tree((Node*)bufs[j][x]);
                m = tm_take(t); if (!tm_eq(m, o[0], 0)) FAIL("instance shares memory with the binding"); tm_free(m);
                free_tree(t);
                }
                else for (int j = 0; j < 10; j++) for (size_t x = 0; x < bn[j]; x++) free_tree((Node*)bufs[j][x]);
                for (int j = 0; j < 10; j++) for (size_t x = 0; x < bn[j]; x++) tm_free(orig[j][x]);
                tm_free(o[0]);
            }
            tm_free(tpl);
        }
        ctx_destroy(&oc);
    }
    return h_done("(tree, substitution) pairs, hashed by their text");
}
