// Matching and rule application against brute force over the tree model
#include "tm.h"
#include "engine/transformation/matching.h"
#include "engine/transformation/rewrite_rule.h"
#include "engine/transformation/transformation.h"
#define MAXB 16
typedef struct { char name[80]; TM **l; size_t n; } Bind;
typedef struct { Bind b[MAXB]; size_t n; } Env;
typedef bool (*Cont)(Env *e, void *c);
static bool islist(const TM *p) { return p->kind == NTYPE_VARIABLE && p->name[0] == '['; }
static Bind *env_get(Env *e, const char *s) { for (size_t i = 0; i < e->n; i++) if (!strcmp(e->b[i].name, s)) return &e->b[i]; return NULL; }
static bool list_eq(TM **a, size_t n, TM **b, size_t m) { if (n != m) return false; for (size_t i = 0; i < n; i++) if (!tm_eq(a[i], b[i], 0)) return false; return true; }
// patterns as a work list: match pats[0..np) against trees[0..nt) then go on with the rest
typedef struct Work { TM **p; size_t np; TM **t; size_t nt; struct Work *next; } Work;
static long steps; 
static bool solve(Work *w, Env *e, Cont k, void *c)
{
    if (++steps > 200000) return false;
    if (!w) return k(e, c);
    if (w->np == 0) return w->nt == 0 && solve(w->next, e, k, c);
    TM *p = w->p[0];
    size_t lo = islist(p) ? 0 : 1, hi = islist(p) ? w->nt : 1;
    for (size_t len = lo; len <= hi && len <= w->nt; len++)
    {
        Work rest = { w->p + 1, w->np - 1, w->t + len, w->nt - len, w->next };
        if (p->kind == NTYPE_VARIABLE)
        {
            Bind *b = env_get(e, p->name);
            if (b) { if (list_eq(b->l, b->n, w->t, len) && solve(&rest, e, k, c)) return true; }
            else { Bind *nb = &e->b[e->n++]; strcpy(nb->name, p->name); nb->l = w->t; nb->n = len; bool r = solve(&rest, e, k, c); if (r) return true; e->n--; }
        }
        else if (p->kind == NTYPE_CONSTANT) { if (tm_eq(p, w->t[0], 0) && solve(&rest, e, k, c)) return true; }
        else if (w->t[0]->kind == NTYPE_OPERATOR && w->t[0]->op == p->op) { Work in = { p->k, p->n, w->t[0]->k, w->t[0]->n, &rest }; if (solve(&in, e, k, c)) return true; }
    }
    return false;
}
static size_t inst(const TM *t, Env *e, TM **o, size_t c)
{
    if (t->kind == NTYPE_VARIABLE) { Bind *b = env_get(e, t->name); if (b) { for (size_t i = 0; i < b->n; i++) o[c++] = tm_copy(b->l[i]); return c; } }
    TM *r = malloc(sizeof *r); *r = *t;
    if (t->kind == NTYPE_OPERATOR) { r->k = calloc(3000, sizeof(TM*)); r->n = 0; for (size_t i = 0; i < t->n; i++) r->n = inst(t->k[i], e, r->k, r->n); }
    o[c++] = r; return c;
}
static TM *inst1(const TM *t, Env *e) { TM *o[3000]; size_t n = inst(t, e, o, 0); if (n != 1) { puts("harness"); exit(2); } return o[0]; }
// condition: depends on the shape of the instantiated condition only
static unsigned long hash(const TM *t) { unsigned long h = t->kind * 77 + 5; if (t->kind == NTYPE_CONSTANT) h += (unsigned long)(t->val * 100); else if (t->kind == NTYPE_VARIABLE) for (const char *s = t->name; *s; s++) h = h * 31 + *s; else h += t->op->id * 1009; for (size_t i = 0; i < t->n; i++) h = h * 1000003 + hash(t->k[i]); return h ^ h >> 17; }
static unsigned long cmod;
static bool cond_tm(const TM *t) { return cmod == 0 || hash(t) % cmod != 0; }
static bool checker(Node **t) { TM *m = tm_take(*t); bool r = cond_tm(m); tm_free(m); return r; }
typedef struct { TM *pat; TM *con[6]; size_t nc; TM *after; } Rule;
static bool conds_hold(Rule *r, Env *e) { for (size_t i = 0; i < r->nc; i++) { TM *c = inst1(r->con[i], e); bool b = cond_tm(c); tm_free(c); if (!b) return false; } return true; }
// ---- any binding at this node?
static bool k_any(Env *e, void *c) { return conds_hold(c, e); }
static bool has_match(Rule *r, TM *t) { Env e = { .n = 0 }; Work w = { &r->pat, 1, &t, 1, NULL }; return solve(&w, &e, k_any, r); }
// ---- is res the result for some binding at this node?
typedef struct { Rule *r; const TM *res; } KR;
static bool k_res(Env *e, void *c) { KR *k = c; if (!conds_hold(k->r, e)) return false; TM *x = inst1(k->r->after, e); bool b = tm_eq(x, k->res, 0); tm_free(x); return b; }
static bool result_ok(Rule *r, TM *t, const TM *res) { Env e = { .n = 0 }; Work w = { &r->pat, 1, &t, 1, NULL }; KR k = { r, res }; return solve(&w, &e, k_res, &k); }
static bool tm_has(const TM *t, const char *v) { if (t->kind == NTYPE_VARIABLE) return !strcmp(t->name, v); for (size_t i = 0; i < t->n; i++) if (tm_has(t->k[i], v)) return true; return false; }
// first matching subtree: its replacement in b must be an instance, everything else equal. 0 not found, 1 ok, -1 wrong
static int check_apply(Rule *r, TM *a, TM *b)
{
    if (has_match(r, a)) return result_ok(r, a, b) ? 1 : -1;
    if (a->kind != NTYPE_OPERATOR) return tm_eq(a, b, 2) ? 0 : -1;
    if (b->kind != NTYPE_OPERATOR || b->op != a->op || a->n != b->n || a->tok != b->tok) return -1;
    for (size_t i = 0; i < a->n; i++) { int x = check_apply(r, a->k[i], b->k[i]); if (x < 0) return -1; if (x == 1) { for (size_t j = i + 1; j < a->n; j++) if (!tm_eq(a->k[j], b->k[j], 2)) return -1; return 1; } }
    return 0;
}
// ---- generation
static const char *tv[] = {"va", "vb", "vc"}, *lv[] = {"[La]", "[Lb]"};
static void few(TM *t) { t->id = 0; if (t->kind == NTYPE_VARIABLE) strcpy(t->name, chance(50) ? "x" : "y"); else if (t->kind == NTYPE_CONSTANT) t->val = rnd(2); else if (t->op->arity == OP_DYNAMIC_ARITY) {} for (size_t i = 0; i < t->n; i++) few(t->k[i]); }
static int pat_lists;
static TM *pat_from(const TM *t, int d, bool dyn, bool top)   // generalises parts of a tree to variables
{
    if (!top && chance(d <= 0 ? 70 : 25)) return tm_var(tv[rnd(3)]);
    TM *r = malloc(sizeof *r); *r = *t;
    if (t->kind == NTYPE_OPERATOR)
    {
        r->k = calloc(t->n + 6, sizeof(TM*)); r->n = 0; bool dy = t->op->arity == OP_DYNAMIC_ARITY;
        for (size_t i = 0; i < t->n; i++)
        {
            if (dy && pat_lists < (t->n > 8 ? 2 : 6) && chance(30)) { pat_lists++; r->k[r->n++] = tm_var(lv[rnd(2)]); size_t skip = dim2(3, 7); i += skip; if (i >= t->n) break; if (skip == 0 && r->n < t->n + 4) { r->k[r->n++] = pat_from(t->k[i], d - 1, dy, false); } continue; }
            r->k[r->n++] = pat_from(t->k[i], d - 1, dy, false);
        }
        if (dy && pat_lists < (t->n > 8 ? 2 : 6) && chance(20)) pat_lists++, r->k[r->n++] = tm_var(lv[rnd(2)]);
    }
    return r;
}
static TM *rhs(const TM *pat, int d, bool dyn)
{
    if (d <= 0 || chance(35))
    {
        for (int i = 0; i < 8; i++) { const char *v = dyn && chance(50) ? lv[rnd(2)] : tv[rnd(3)]; if (tm_has(pat, v)) return tm_var(v); }
        return tm_const(rnd(4));
    }
    for (int i = 0; i < 8 && os_n; i++) { const Operator *o = os_op[rnd(os_n)]; size_t n = o->arity == OP_DYNAMIC_ARITY ? rnd(4) : o->arity; TM *t = tm_op(o, n); for (size_t j = 0; j < n; j++) t->k[j] = rhs(pat, d - 1, o->arity == OP_DYNAMIC_ARITY); return t; }
    return tm_const(7);
}
static void share(TM *t) { if (t->n >= 2 && chance(30)) { size_t i = rnd(t->n), j = rnd(t->n); if (i != j) { tm_free(t->k[j]); t->k[j] = tm_copy(t->k[i]); } } for (size_t i = 0; i < t->n; i++) share(t->k[i]); }
static TM *gen(int d, size_t max) { for (;;) { TM *t = tm_random(d); if (tm_size(t) < max) { few(t); share(t); if (tm_size(t) < max) return t; } tm_free(t); } }
// operands that contain a list twice, with or without a difference, and a pattern asking for it
static bool lists(TM **a, TM **pat)
{
    const Operator *o = NULL; for (int i = 0; i < 10 && os_n; i++) { o = os_op[rnd(os_n)]; if (o->arity == OP_DYNAMIC_ARITY) break; o = NULL; }
    if (!o) return false;
    size_t n = dim2(5, 14), m = rnd(3), rep = chance(75) ? 2 : 1, lead = rnd(3); TM *l[64]; for (size_t i = 0; i < n; i++) { l[i] = chance(85) ? tm_const(rnd(2)) : tm_random(1); few(l[i]); }
    TM *t = tm_op(o, 0), *p = tm_op(o, 0); free(t->k); free(p->k); t->k = calloc(200, sizeof(TM*)); p->k = calloc(40, sizeof(TM*));
    for (size_t i = 0; i < lead; i++) { t->k[t->n] = tm_const(rnd(2)); p->k[p->n++] = chance(50) ? tm_copy(t->k[t->n]) : tm_var(tv[rnd(3)]); t->n++; }
    for (size_t r = 0; r < rep; r++)
    {
        p->k[p->n++] = tm_var(lv[0]); for (size_t i = 0; i < n; i++) t->k[t->n++] = tm_copy(l[i]);
        for (size_t i = 0; i < m; i++) { t->k[t->n] = tm_const(2 + rnd(2)); p->k[p->n++] = chance(50) ? tm_copy(t->k[t->n]) : tm_var(tv[rnd(3)]); t->n++; }
        if (n < 6 && chance(20)) { p->k[p->n++] = tm_var(lv[1]); for (size_t i = rnd(3); i > 0; i--) t->k[t->n++] = tm_const(rnd(2)); }
    }
    for (size_t i = 0; i < n; i++) tm_free(l[i]);
    if (chance(40) && t->n) { TM *x = t->k[chance(50) ? t->n - 1 - rnd(t->n < 3 ? t->n : 3) : rnd(t->n)]; if (x->kind == NTYPE_CONSTANT) x->val += 1; }
    *a = t; *pat = p; return true;
}
static const Operator *dynop(void) { for (int i = 0; i < 10 && os_n; i++) { const Operator *o = os_op[rnd(os_n)]; if (o->arity == OP_DYNAMIC_ARITY) return o; } return NULL; }
// many variables, conditions on some of them
static bool wide(TM **a, Rule *r)
{
    static const char *wv[] = { "wa", "wb", "wc", "wd", "we", "wf", "wg", "wh", "wi", "wj" };
    const Operator *o = dynop(); if (!o) return false;
    size_t n = 1 + rnd(10), nv = 0; TM *t = tm_op(o, n), *p = tm_op(o, n), *w[16];
    for (size_t i = 0; i < n; i++)
    {
        size_t j = nv && chance(15) ? rnd(nv) : nv;
        t->k[i] = j < nv && chance(85) ? tm_copy(w[j]) : tm_const(rnd(6)); if (j == nv) w[nv++] = t->k[i];
        p->k[i] = tm_var(wv[j]);
    }
    if (chance(30)) { TM *x = tm_op(o, 2); x->k[0] = t; x->k[1] = tm_copy(t); t = x; if (chance(50)) { TM *y = tm_op(o, 1); y->k[0] = p; x->n = 1; tm_free(x->k[1]); p = y; } }
    *a = t; r->pat = p; r->nc = rnd(4);
    for (size_t i = 0; i < r->nc; i++) { size_t m = 1 + rnd(2); TM *c = tm_op(o, m); for (size_t k = 0; k < m; k++) c->k[k] = tm_var(wv[chance(50) ? nv - 1 - rnd(nv < 2 ? nv : 2) : rnd(nv)]); r->con[i] = c; }
    r->after = tm_op(o, 2); r->after->k[0] = tm_var(wv[rnd(nv)]); r->after->k[1] = tm_var(wv[nv - 1]);
    cmod = r->nc ? 2 + rnd(3) : 0; return true;
}
static TM *pick(TM *t) { while (t->n && chance(60)) t = t->k[rnd(t->n)]; return t; }
static char rs[30000];
static const char *rule_str(const Rule *r) { char *o = rs; o = tm_s(o, r->pat); o += sprintf(o, " -> "); o = tm_s(o, r->after); for (size_t i = 0; i < r->nc; i++) { o += sprintf(o, " WHERE "); o = tm_s(o, r->con[i]); } o += sprintf(o, " mod %lu", cmod); return rs; }
static bool mk_rule(Rule *r, TM *t)
{
    for (int i = 0; i < 20; i++)
    {
        pat_lists = 0; r->pat = pat_from(pick(t), rnd(4), false, true); if (tm_size(r->pat) > 30 || (chance(70) && r->pat->kind != NTYPE_OPERATOR)) { tm_free(r->pat); continue; }
        r->after = rhs(r->pat, rnd(3), false); r->nc = chance(45) ? 1 + rnd(3) : 0;
        for (size_t j = 0; j < r->nc; j++) r->con[j] = rhs(r->pat, 1 + rnd(2), false);
        return true;
    }
    return false;
}
static void free_tm_rule(Rule *r) { tm_free(r->pat); tm_free(r->after); for (size_t i = 0; i < r->nc; i++) tm_free(r->con[i]); }
static int build_rule(const Rule *r, RewriteRule *out)
{
    Node *con[6]; for (size_t i = 0; i < r->nc; i++) con[i] = tm_build(r->con[i]);
    Pattern p; Node *pt = tm_build(r->pat); int e = get_pattern(pt, r->nc, con, &p);
    if (e) { free_tree(pt); for (size_t i = 0; i < r->nc; i++) free_tree(con[i]); return e; }
    Node *af = tm_build(r->after); if (!get_rule(p, af, out)) FAIL("rule refused although its variables are bound");
    return 0;
}
// long runs of a rule set: every rule removes or changes one operand of a certain value
static void run_long(void)
{
    const Operator *o = dynop(); if (!o) return;
    size_t n = 1 + dim2(12, 40), nr = 1 + dim2(5, 12), cap = dim2(20, 60); cmod = 0; if (n > 40) n = 40; if (nr > 12) nr = 12;
    TM *a = tm_op(o, n); for (size_t i = 0; i < n; i++) a->k[i] = tm_const(rnd(nr + 1));
    static char txt[4000]; char *d = txt; d += sprintf(d, "rules for %s:", o->name);
    RewriteRule rules[16]; Vector v = get_empty_ruleset();
    for (size_t i = 0; i < nr; i++)
    {
        Rule r = { .nc = 0 }; size_t val = rnd(nr + 1); bool sub = val > 0 && chance(40); d += sprintf(d, " %zu%s", val, sub ? ">" : "");
        r.pat = tm_op(o, 3); r.pat->k[0] = tm_var(lv[0]); r.pat->k[1] = tm_const(val); r.pat->k[2] = tm_var(lv[1]);
        r.after = tm_op(o, sub ? 3 : 2); r.after->k[0] = tm_var(lv[0]); r.after->k[sub ? 2 : 1] = tm_var(lv[1]); if (sub) { size_t to = rnd(val); d += sprintf(d, "%zu", to); r.after->k[1] = tm_const(to); }
        if (build_rule(&r, &rules[i])) FAIL("rule refused"); add_to_ruleset(&v, rules[i]); free_tm_rule(&r);
    }
    CASE("%s | %s cap %zu", txt, tm_str(a), cap);
    Node *y = tm_build(a), *z = tm_build(a); size_t cnt = 0;
    while (cnt < cap) { size_t i = 0; while (i < nr && !apply_rule(&y, &rules[i], checker)) i++; if (i == nr) break; cnt++; }
    size_t c2 = apply_ruleset(&z, &v, checker, cap); if (c2 != cnt) FAIL("%zu applications instead of %zu", c2, cnt);
    TM *p = tm_take(y), *q = tm_take(z); if (!tm_eq(p, q, 2)) FAIL("rule set gives %s instead of %s", tm_str(q), tm_str(p)); tm_free(p); tm_free(q);
    free_tree(y); free_tree(z); free_ruleset(&v); tm_free(a);
}
static size_t ids_of(const TM *t, const char *n[], size_t c) { if (t->kind == NTYPE_VARIABLE) { for (size_t i = 0; i < c; i++) if (!strcmp(n[i], t->name)) return c; n[c++] = t->name; } for (size_t i = 0; i < t->n; i++) c = ids_of(t->k[i], n, c); return c; }
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util(); h_dimmax = 8;
    while (h_more())
    {
        os_make(false);
        for (int i = 0; i < 60 && os_n; i++)
        {
            TM *a = gen(1 + rnd(4), 40); Rule r;
            cmod = chance(50) ? 1 + rnd(4) : 0; if (cmod == 1 && chance(60)) cmod = 2;
            TM *la, *lp; bool special = chance(8) && lists(&la, &lp); if (chance(1)) run_long();
            if (special) { tm_free(a); a = la; r.pat = lp; r.after = rhs(r.pat, rnd(3), false); r.nc = 0; if (tm_size(r.after) > 60) { tm_free(r.after); r.after = tm_const(3); } }
            else if (chance(6) && wide(&la, &r)) { tm_free(a); a = la; special = true; }
            else
            if (!mk_rule(&r, a)) { tm_free(a); continue; }
            if (!special && chance(30)) { tm_free(a); a = gen(1 + rnd(4), 40); }
            CASE("%s | %s", rule_str(&r), tm_str(a));
            RewriteRule rule; int e = build_rule(&r, &rule);
            if (e) { size_t c[3] = {0}; if (r.nc <= 3) FAIL("pattern refused: %d", e); (void)c; free_tm_rule(&r); tm_free(a); continue; }
            const Node *t = tm_build(a);
            steps = 0;
            // every reported matching
            Matching *ms = NULL; size_t n = get_all_matchings(&t, &rule.pattern, checker, &ms);
            bool any = has_match(&r, a);
            if (steps > 200000) { free(ms); free_tree((Node*)t); free_rule(&rule); free_tm_rule(&r); tm_free(a); continue; }
            if (any != (n > 0)) FAIL("%zu matchings reported", n);
            const char *nm[MAXB]; size_t nv = ids_of(r.pat, nm, 0);
            for (size_t k = 0; k < n && k < 30; k++)
            {
                Env env = { .n = 0 };
                for (size_t v = 0; v < nv; v++)
                {
                    NodeList l = ms[k].mapped_nodes[v]; Bind *b = &env.b[env.n++]; strcpy(b->name, nm[v]); b->n = l.size; b->l = calloc(l.size + 1, sizeof(TM*));
                    if (nm[v][0] != '[' && l.size != 1) FAIL("variable %s bound to %zu trees", nm[v], l.size);
                    for (size_t q = 0; q < l.size; q++) b->l[q] = tm_take(l.nodes[q]);
                }
                TM *in = inst1(r.pat, &env); if (!tm_eq(in, a, 0)) FAIL("matching %zu: substitution gives %s", k, tm_str(in)); tm_free(in);
                if (!conds_hold(&r, &env)) FAIL("matching %zu violates a condition", k);
                for (size_t v = 0; v < nv; v++) { for (size_t q = 0; q < env.b[v].n; q++) tm_free(env.b[v].l[q]); free(env.b[v].l); }
            }
            free(ms);
            if (get_matching(&t, &rule.pattern, checker, NULL) != any) FAIL("get_matching");
            TM *m = tm_take(t); if (!tm_eq(m, a, 2)) FAIL("matching changed the tree"); tm_free(m);
            // application
            Node *x = (Node*)t; steps = 0;
            bool ap = apply_rule(&x, &rule, checker);
            m = tm_take(x); int w = check_apply(&r, a, m);
            if (steps <= 200000 && ap != (w != 0)) FAIL("apply_rule gives %d", ap);
            if (steps <= 200000 && w < 0) FAIL("apply_rule gives %s", tm_str(m));
            if (!ap && !tm_eq(m, a, 2)) FAIL("tree changed although no rule applies");
            tm_free(m); free_tree(x);
            // rule sets: the same as single steps in order
            Rule r2; if ((tm_size(a) < 25 || chance(5)) && mk_rule(&r2, a))
            {
                RewriteRule rule2, rb; if (!build_rule(&r2, &rule2))
                {
                    size_t cap = chance(10) ? 0 : 1 + rnd(5); Vector rules = get_empty_ruleset(); if (build_rule(&r, &rb)) FAIL("rule");
                    add_to_ruleset(&rules, rb); add_to_ruleset(&rules, rule2);
                    Node *y = tm_build(a), *z = tm_build(a); size_t cnt = 0; bool big = false;
                    while (cnt < cap) { if (!apply_rule(&y, &rb, checker) && !apply_rule(&y, &rule2, checker)) break; cnt++; TM *s = tm_take(y); if (tm_size(s) > 60) big = true; tm_free(s); if (big) break; }
                    if (!big) {
                    CASE("rules %s and second | %s cap %zu", rule_str(&r), tm_str(a), cap);
                    size_t c2 = apply_ruleset(&z, &rules, checker, cap); if (c2 != cnt) FAIL("%zu applications instead of %zu", c2, cnt);
                    TM *p = tm_take(y), *q = tm_take(z); if (!tm_eq(p, q, 2)) FAIL("rule set gives %s instead of %s", tm_str(q), tm_str(p)); tm_free(p); tm_free(q); }
                    free_tree(y); free_tree(z); free_ruleset(&rules);
                }
                free_tm_rule(&r2);
            }
            free_rule(&rule); free_tm_rule(&r); tm_free(a);
        }
        ctx_destroy(&oc);
    }
    unload_console_util();
    return h_done("random operator sets, trees and rules generalised from subtrees (tree and list variables, repeated variables, conditions); brute-force bindings as reference");
}
