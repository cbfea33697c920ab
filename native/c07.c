// Evaluation and folding against the tree model, with recording callbacks
#include "tm.h"
static int fail_mode;
// deterministic operation; some argument patterns fail with an error that depends on the operator
static ListenerError lis(const Operator *op, size_t n, const double *a, double *out)
{
    double r = (double)(op->id + 1);
    for (size_t i = 0; i < n; i++) r = r * 3 + a[i] * (i + 2);
    r = fmod(r, 1009.0);
    if (fail_mode && fmod(floor(r), fail_mode) == 0) { return (int)op->id + 1; }
    *out = r; return LISTENERERR_SUCCESS;
}
typedef struct { int err; double v; const TM *node; } R;
static R ev(const TM *t)
{
    if (t->kind == NTYPE_CONSTANT) return (R){ 0, t->val, NULL };
    if (t->kind == NTYPE_VARIABLE) return (R){ LISTENERERR_VARIABLE_ENCOUNTERED, 0, t };
    double *a = malloc((t->n + 1) * sizeof *a);
    for (size_t i = 0; i < t->n; i++) { R r = ev(t->k[i]); if (r.err) { free(a); return r; } a[i] = r.v; }
    R r = { 0, 0, NULL }; r.err = lis(t->op, t->n, a, &r.v); if (r.err) r.node = t; free(a); return r;
}
static bool hasvar(const TM *t) { if (t->kind == NTYPE_VARIABLE) return true; for (size_t i = 0; i < t->n; i++) if (hasvar(t->k[i])) return true; return false; }
static int fold(TM **t, const TM **bad)
{
    if (!hasvar(*t)) { R r = ev(*t); if (r.err) { *bad = r.node; return r.err; } TM *c = tm_const(r.v); c->tok = (*t)->tok; tm_free(*t); *t = c; return 0; }
    for (size_t i = 0; i < (*t)->n; i++) { int e = fold(&(*t)->k[i], bad); if (e) return e; }
    return 0;
}
static const Node *locate(const Node *n, const TM *t, const TM *what)
{
    if (t == what) return n;
    for (size_t i = 0; i < t->n; i++) { const Node *r = locate(get_child(n, i), t->k[i], what); if (r) return r; }
    return NULL;
}
static size_t cb_calls;
static double cb(size_t n, Node **k) { cb_calls++; double r = 7 + n; for (size_t i = 0; i < n; i++) r = fmod(r * 5 + (get_type(k[i]) == NTYPE_CONSTANT ? get_const_value(k[i]) : 3 + get_token_index(k[i])), 911); return r; }
static TM *red(const TM *t, const Operator *op, size_t *calls)
{
    TM *r = malloc(sizeof *r); *r = *t;
    if (t->kind != NTYPE_OPERATOR) return r;
    r->k = calloc(t->n + 1, sizeof(TM*)); for (size_t i = 0; i < t->n; i++) r->k[i] = red(t->k[i], op, calls);
    if (t->op == op) { double v = 7 + t->n; for (size_t i = 0; i < t->n; i++) v = fmod(v * 5 + (r->k[i]->kind == NTYPE_CONSTANT ? r->k[i]->val : 3 + r->k[i]->tok), 911); TM *c = tm_const(v); c->tok = t->tok; tm_free(r); (*calls)++; return c; }
    return r;
}
static void novar(TM *t, int pct) { if (t->kind == NTYPE_VARIABLE && chance(pct)) { t->kind = NTYPE_CONSTANT; t->val = rnd(20); } for (size_t i = 0; i < t->n; i++) novar(t->k[i], pct); }
static size_t tokc; static void numtok(TM *t) { t->tok = tokc++; for (size_t i = 0; i < t->n; i++) numtok(t->k[i]); }
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    while (h_more())
    {
        os_make(false);
        for (int i = 0; i < 150 && os_n; i++)
        {
            fail_mode = chance(50) ? 0 : 2 + rnd(12);
            TM *a = tm_random(rnd(6)); if (tm_size(a) > 200) { tm_free(a); continue; }
            novar(a, chance(50) ? 100 : 60 + rnd(40)); tokc = 0; numtok(a);
            CASE("fail%d %s", fail_mode, tm_str(a));
            Node *t = tm_build(a); double out = -12345; const Node *en = NULL;
            R w = ev(a);
            bool want_node = chance(80);
            ListenerError e = tree_reduce(t, lis, &out, want_node ? &en : NULL);
            if (e != w.err) FAIL("evaluation reports %d instead of %d", e, w.err);
            if (!e && !deq(out, w.v)) FAIL("value %.17g instead of %.17g", out, w.v);
            if (e && want_node && en != locate(t, a, w.node)) FAIL("wrong error node");
            if (!e && en != NULL) FAIL("error node without error");
            TM *m = tm_take(t); if (!tm_eq(m, a, 2)) FAIL("evaluation changed the tree"); tm_free(m);
            // folding
            TM *f = tm_copy(a); const TM *bad = NULL; int fe = fold(&f, &bad); en = NULL; size_t badtok = bad ? bad->tok : 0;
            e = tree_reduce_constant_subtrees(&t, lis, &en);
            if (e != fe) FAIL("folding reports %d instead of %d", e, fe);
            if (e && (en == NULL || get_token_index(en) != badtok)) FAIL("folding: wrong error node");
            m = tm_take(t); if (!e && !tm_eq(m, f, 2)) FAIL("folded tree is %s instead of %s", tm_str(m), tm_str(f));
            if (e && !tm_eq(m, f, 2)) FAIL("tree after a failed folding is %s instead of %s", tm_str(m), tm_str(f));
            tm_free(m); tm_free(f); free_tree(t);
            // reduction of one operator
            const Operator *op = os_op[rnd(os_n)]; size_t calls = 0;
            if (op->arity != 0) // the callback gets the address of the first operand
            {
                t = tm_build(a); f = red(a, op, &calls); cb_calls = 0; tree_reduce_ops(&t, op, cb); m = tm_take(t);
                if (!tm_eq(m, f, 2)) FAIL("reducing %s gives %s instead of %s", op->name, tm_str(m), tm_str(f));
                if (calls != cb_calls) FAIL("%zu calls instead of %zu", cb_calls, calls);
                tm_free(m); tm_free(f); free_tree(t);
            }
            tm_free(a);
        }
        ctx_destroy(&oc);
    }
    return h_done("(tree, failing pattern) pairs, hashed by their text");
}
