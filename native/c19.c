// C19: generated rule files (sections, comments, conditions, malformed lines), read by the real code and compared rule by rule
#include "tm.h"
#include "engine/parsing/parser.h"
#include "engine/transformation/rule_parsing.h"
#include "engine/transformation/rewrite_rule.h"
#include "client/core/arith_context.h"
#include "client/core/history.h"
#include "client/simplification/propositional_context.h"
#include "util/console_util.h"
#include "util/vector.h"
#include <sanitizer/lsan_interface.h>
static const char *vars[] = { "x", "y", "z", "[xs]", "[ys]", "[c]", "t", "ab", "cd", "ef", "gh", "[q]" };
// a variable has only one lexical form: list variables are only arguments of functions
static int e(char *o, int d, int nv)
{
    if (d <= 0 || chance(25)) return chance(30) ? sprintf(o, "%d", (int)rnd(20)) : sprintf(o, "%s", vars[rnd(nv)]);
    int n = 0;
    switch (rnd(7))
    {
        case 0: case 1: n = e(o, d - 1, nv); n += sprintf(o + n, "%s", (const char *[]){ " + ", "*", "-", "^", "/" }[rnd(5)]); n += e(o + n, d - 1, nv); return n;
        case 2: n = sprintf(o, "("); n += e(o + n, d - 1, nv); n += sprintf(o + n, ")"); return n;
        case 3: n = sprintf(o, "-("); n += e(o + n, d - 1, nv); n += sprintf(o + n, ")"); return n;
        case 4: n = sprintf(o, "sum("); for (int k = rnd(4); k >= 0; k--) { n += e(o + n, d - 1, nv); n += sprintf(o + n, k ? ", " : ")"); } return n;
        case 5: n = sprintf(o, "sin("); n += e(o + n, d - 1, nv); n += sprintf(o + n, ")"); return n;
        default: n = sprintf(o, "prod("); for (int k = rnd(3); k >= 0; k--) { n += e(o + n, d - 1, nv); n += sprintf(o + n, k ? "," : ")"); } return n;
    }
}
static int cond(char *o, int nv)
{
    int n = 0;
    switch (rnd(4))
    {
        case 0: n = sprintf(o, "type("); n += e(o + n, 1, nv); n += sprintf(o + n, ") == %s", (const char *[]){ "CONST", "VAR", "OP" }[rnd(3)]); return n;
        case 1: n = e(o, 1, nv); n += sprintf(o + n, (const char *[]){ " > ", " <= ", " != " }[rnd(3)]); n += e(o + n, 1, nv); return n;
        case 2: n = sprintf(o, "!"); n += sprintf(o + n, "equal("); n += e(o + n, 1, nv); n += sprintf(o + n, ","); n += e(o + n, 1, nv); n += sprintf(o + n, ")"); return n;
        default: n = cond(o, nv); n += sprintf(o + n, " || "); n += cond(o + n, nv); return n;
    }
}
static const char *bad[] = { "x +", "(x", "sin(x, y)", "x * ) y", ")", "sum(x", "", "x,y", "foo(" };
typedef struct { char l[2000], r[2000], c[6][2000]; size_t nc; } R;
static size_t varsof(const TM *t, char v[][80], size_t n) { if (t->kind == NTYPE_VARIABLE) { for (size_t i = 0; i < n; i++) if (!strcmp(v[i], t->name)) return n; strcpy(v[n], t->name); return n + 1; } for (size_t i = 0; i < t->n; i++) n = varsof(t->k[i], v, n); return n; }
static TM *parse(const char *s) { Node *x = parse_easy(g_propositional_ctx, s); if (!x) return NULL; TM *t = tm_take(x); free_tree(x); return t; }
// is the rule valid according to its definition?
static bool valid(const R *r)
{
    TM *l = parse(r->l), *a = parse(r->r); bool ok = l && a && r->nc <= MATCHING_MAX_CONSTRAINTS;
    for (size_t i = 0; i < r->nc; i++) { TM *c = parse(r->c[i]); if (!c) ok = false; tm_free(c); }
    if (ok)
    {
        static char lv[100][80], rv[100][80]; size_t nl = varsof(l, lv, 0), nr = varsof(a, rv, 0);
        if (nl > MAX_MAPPED_VARS) ok = false;
        for (size_t i = 0; i < nr; i++) { bool f = false; for (size_t j = 0; j < nl; j++) f |= !strcmp(lv[j], rv[i]); if (!f) ok = false; }
    }
    tm_free(l); tm_free(a); return ok;
}
static void gen(R *r, bool allow_bad)
{
    int nv = 1 + rnd(5); r->nc = chance(50) ? 0 : 1 + rnd(3);
    for (int tries = 0; ; tries++)
    {
        if (allow_bad && chance(15)) nv = 12;
        int n = e(r->l, 2 + rnd(3), nv); if (n > 290) continue;
        if (allow_bad && chance(20) ) { n = 0; n += sprintf(r->l, "sum("); for (int i = 0; i < 9 + (int)rnd(4) && i < 12; i++) n += sprintf(r->l + n, "%s%s", i ? "," : "", vars[i]); sprintf(r->l + n, ")"); }
        n = e(r->r, 2, nv); if (n > 290) continue;
        for (size_t i = 0; i < 6; i++) if (cond(r->c[i], nv) > 190) r->c[i][0] = '1', r->c[i][1] = 0;
        if (allow_bad)
        {
            r->nc = rnd(6);
            if (chance(25)) strcpy(r->l, bad[rnd(9)]);
            if (chance(25)) strcpy(r->r, bad[rnd(9)]);
            if (r->nc && chance(25)) strcpy(r->c[rnd(r->nc)], bad[rnd(9)]);
            return;
        }
        if (valid(r)) return;
    }
}
static int text(char *o, const R *r)
{
    int n = 0; for (int k = chance(30) ? rnd(4) : 0; k > 0; k--) o[n++] = ' ';
    n += sprintf(o + n, "%s%s->%s%s", r->l, chance(80) ? " " : "", chance(80) ? " " : "", r->r);
    for (size_t i = 0; i < r->nc; i++) n += sprintf(o + n, "%s%s", i ? " ; " : " WHERE ", r->c[i]);
    if (chance(20)) n += sprintf(o + n, "%s", (const char *[]){ "  # comment -> x", "# comment -> x", "#", " #", "#x", "   # a # b WHERE 1" }[rnd(6)]);
    return n;
}
static void check_rule(const RewriteRule *x, const R *r)
{
    TM *l = parse(r->l), *a = parse(r->r), *p = tm_take(x->pattern.pattern), *q = tm_take(x->after);
    if (!tm_eq(l, p, 0)) FAIL("left side of '%s' is %s", r->l, tm_str(p));
    if (!tm_eq(a, q, 0)) FAIL("right side of '%s -> %s' is %s", r->l, r->r, tm_str(q));
    size_t nc = 0; bool used[6] = { false };
    for (size_t i = 0; i < MAX_MAPPED_VARS; i++) for (size_t j = 0; j < x->pattern.num_constraints[i]; j++)
    {
        TM *c = tm_take(x->pattern.constraints[i][j]); bool f = false; nc++;
        for (size_t k = 0; k < r->nc && !f; k++) { TM *d = parse(r->c[k]); if (!used[k] && tm_eq(c, d, 0)) { used[k] = true; f = true; } tm_free(d); }
        if (!f) FAIL("condition %s was not written", tm_str(c));
        tm_free(c);
    }
    if (nc != r->nc) FAIL("%zu conditions read, %zu written", nc, r->nc);
    tm_free(l); tm_free(a); tm_free(p); tm_free(q);
}
static void file(void)
{
    static char b[4000000]; static R r[1200]; static int sec[1200]; int per = chance(3) ? 1 + (int)dim2(6, 300) : 6; size_t n = 0, nr = 0; int nsec = 0, want = rnd(6); bool anybad = false;
    static const char *blank[] = { "\n", "   \n", "# only a comment\n", "  # RULESET x -> y\n", "#x -> y\n" };
    for (int k = rnd(3); k > 0; k--) n += sprintf(b + n, "%s", blank[rnd(5)]);
    int badsec = chance(30) ? rnd(6) : -1;
    for (int s = 0; s < want; s++)
    {
        n += sprintf(b + n, "%sRULESET%s%s\n", chance(20) ? " " : "", chance(50) ? " Name" : "", chance(20) ? " # first" : ""); nsec++;
        for (int k = rnd(per); k > 0 && nr < 1200 && n < sizeof b - 100000; k--)
        {
            if (per > 6 && chance(5)) for (int j = (int)dim2(10, 400); j > 0; j--) n += sprintf(b + n, "%s", blank[rnd(5)]);
            if (chance(30)) { n += sprintf(b + n, "%s", blank[rnd(5)]); continue; }
            bool bd = s == badsec && chance(40);
            gen(&r[nr], bd); if (bd && !valid(&r[nr])) anybad = true;
            n += text(b + n, &r[nr]); n += sprintf(b + n, "\n"); sec[nr++] = s;
        }
    }
    for (int k = rnd(3); k > 0; k--) n += sprintf(b + n, "%s", blank[rnd(5)]);
    bool nonl = n > 0 && chance(40); if (nonl) n--; // last line without line end
    b[n] = 0;
    CASE("%s%s", b, nonl ? "<end of file>" : "");
    static Vector v[8]; for (int i = 0; i < 8; i++) v[i] = get_empty_ruleset();
    FILE *f = n ? fmemopen(b, n, "r") : fopen("/dev/null", "r");
    __lsan_disable(); // a failed load gives no access to what was read before
    ssize_t res = parse_rulesets_from_file(f, g_propositional_ctx, 8, v);
    __lsan_enable();
    fclose(f);
    if (anybad) { if (res != -1) FAIL("malformed file is accepted (%zd)", res); for (int i = 0; i < 8; i++) vec_destroy(&v[i]); return; }
    if (res != nsec) FAIL("%zd sections read, %d written", res, nsec);
    size_t k = 0;
    for (int s = 0; s < 8; s++)
    {
        for (size_t i = 0; i < v[s].elem_count; i++)
        {
            if (k >= nr || sec[k] != s) FAIL("section %d has an additional rule", s);
            check_rule(vec_get(&v[s], i), &r[k]); k++;
        }
        if (k < nr && sec[k] == s) FAIL("rule '%s -> %s' of section %d is missing", r[k].l, r[k].r, s);
    }
    for (int i = 0; i < 8; i++) free_ruleset(&v[i]);
}
static void single(void)
{
    static R r; static char b[20000]; gen(&r, chance(50)); int n = text(b, &r); char *c = strchr(b, '#'); if (c) *c = 0; (void)n;
    CASE("rule: %s", b);
    char *s = strdup(b); RewriteRule x; bool res = parse_rule(s, g_propositional_ctx, &x); bool exp = valid(&r);
    if (strcmp(s, b)) FAIL("the text is changed"); free(s);
    if (res != exp) FAIL("rule is %s", res ? "accepted" : "rejected");
    if (res) { check_rule(&x, &r); free_rule(&x); }
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util(); init_history(); init_arith_ctx(); init_propositional_ctx(); stderr = fopen("/dev/null", "w");
    while (h_more()) { for (int i = 0; i < 5; i++) file(); for (int i = 0; i < 10; i++) single(); }
    unload_propositional_ctx(); unload_arith_ctx(); unload_history(); unload_console_util(); fclose(stderr);
    return h_done("rule files and single rules, well formed and malformed");
}
