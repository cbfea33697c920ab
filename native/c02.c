// Parsing arbitrary token sequences: safe, well-formed result or located error, no token lost
#include "c02.h"
static void wf(const TM *t) { if (t->kind == NTYPE_OPERATOR) { if (t->op->arity != OP_DYNAMIC_ARITY && t->op->arity != t->n) FAIL("operator %s has %zu operands", t->op->name, t->n); for (size_t i = 0; i < t->n; i++) wf(t->k[i]); } }
static size_t count_kind(const TM *t, size_t tok, bool opn) { size_t s = t->tok == tok && (t->kind == NTYPE_OPERATOR) == opn; for (size_t i = 0; i < t->n; i++) s += count_kind(t->k[i], tok, opn); return s; }
static void one(const ParsingContext *ctx, size_t n, const char **tok)
{
    static char txt[20000]; txt[0] = 0; for (size_t i = 0; i < n; i++) { strcat(txt, tok[i]); strcat(txt, "\x1f"); }
    CASE("ops: %s tokens: %s", os_desc, txt);
    Node *res = (Node*)8; size_t et = 9999999;
    ParserError e = parse_tokens(ctx, n, tok, &res, &et);
    TM *ref = r_parse(ctx, n, tok);
    if ((e == PERR_SUCCESS) != (ref != NULL)) FAIL("%s (error %d at %zu)", ref ? "an expression is rejected" : "accepted although not an expression", e, et);
    tm_free(ref);
    if (e == PERR_SUCCESS)
    {
        TM *t = tm_take(res); wf(t);
        for (size_t i = 0; i < n; i++)
        {
            bool skip = tok[i][0] == ' ' || r_is(tok[i], "(", "{") || r_is(tok[i], ")", "}") || r_is(tok[i], ",", NULL);
            size_t leaf = count_kind(t, i, false), ops = count_kind(t, i, true);
            // a token is one leaf or one operator; a glue operator carries the position of the token it precedes
            if (skip ? leaf != 0 : (leaf + ops < 1 || leaf > 1 || leaf + ops > 2)) FAIL("token %zu '%s' occurs %zu times as leaf and %zu times as operator", i, tok[i], leaf, ops);
            if (!skip && ctx->glue_op == NULL && leaf + ops != 1) FAIL("token %zu '%s' occurs %zu times", i, tok[i], leaf + ops);
            if (skip && ops > (ctx->glue_op != NULL)) FAIL("token %zu '%s' occurs in the tree", i, tok[i]);
        }
        for (size_t i = 0; i < 3; i++) if (count_kind(t, n + i, true) + count_kind(t, n + i, false)) FAIL("token position past the end");
        tm_free(t); free_tree(res);
    }
    else
    {
        if (res != (Node*)8 && res != NULL) FAIL("a tree is returned with error %d", e);
        if (et > n) FAIL("error token %zu of %zu", et, n);
    }
    size_t et2 = 777; ParserError e2 = parse_tokens(ctx, n, tok, NULL, chance(50) ? &et2 : NULL);
    if (e2 != e) FAIL("checking without a result gives %d instead of %d", e2, e);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    static const char *misc[] = {"(", ")", ",", "{", "}", " ", "x", "y", "1", "2.5", "1.2.3", ".", "abc", "[", "@", "inf", "(", ")", "#", "1e", "\t", "1.2.", "..", "5.", ".5", "_", "_a", "\x7f", "\xC3", "nan", "1.5.", "infinity", "0x1", "]", "'", "\"", ";"};
    while (h_more())
    {
        os_make(chance(60));
        const char *pool[120]; size_t np = 0;
        for (size_t i = 0; i < os_n; i++) pool[np++] = os_op[i]->name;
        // every sequence of length up to 3 over a few tokens, then random ones
        if (chance(20)) { const char *q[9]; for (int i = 0; i < 9; i++) q[i] = i < 4 && np ? pool[rnd(np)] : misc[rnd(37)]; for (int a = 0; a < 9; a++) { const char *s[3] = {q[a]}; one(&oc, 1, s); for (int b = 0; b < 9; b++) { s[1] = q[b]; one(&oc, 2, s); for (int c = 0; c < 9; c++) { s[2] = q[c]; one(&oc, 3, s); } } } one(&oc, 0, q); }
        for (int r = 0; r < 120; r++)
        {
            const char *s[400]; size_t n = dim2(chance(10) ? 60 : 12, 150);
            bool want_operand = true;
            for (size_t i = 0; i < n; i++)
            {
                s[i] = np && chance(50) ? pool[rnd(np)] : misc[rnd(37)];
                // bias towards accepted sequences
                if (chance(70))
                {
                    if (want_operand) { switch (rnd(6)) { case 0: case 1: s[i] = misc[6 + rnd(4)]; want_operand = false; break; case 2: s[i] = "("; break; default: if (np) { const Operator *o = os_op[rnd(os_n)]; if (o->placement == OP_PLACE_PREFIX) s[i] = o->name; else if (o->placement == OP_PLACE_FUNCTION) { s[i] = o->name; if (o->arity == 0) want_operand = false; else if (i + 1 < n) s[++i] = "("; } } } }
                    else { switch (rnd(6)) { case 0: s[i] = ")"; break; case 1: s[i] = ","; want_operand = true; break; default: if (np) { const Operator *o = os_op[rnd(os_n)]; if (o->placement == OP_PLACE_INFIX) { s[i] = o->name; want_operand = true; } else if (o->placement == OP_PLACE_POSTFIX) s[i] = o->name; } } }
                }
                else want_operand = chance(50);
            }
            one(&oc, n, s);
        }
        for (int r = 0; r < 6; r++)   // nesting and long lists
        {
            const char *s[1400]; size_t n = 0, k = dim2(12, 100); bool ok = chance(70); const Operator *f = NULL; for (size_t i = 0; i < os_n; i++) if (os_op[i]->placement == OP_PLACE_FUNCTION && os_op[i]->arity != 0 && (!f || chance(40))) f = os_op[i];
            for (size_t i = 0; i < k; i++) { if (f && chance(20)) { s[n++] = f->name; for (size_t j = 1; f->arity != OP_DYNAMIC_ARITY && 0; j++) ; } s[n++] = chance(90) ? "(" : "{"; }
            if (f && chance(50)) { s[n++] = f->name; s[n++] = "("; size_t m = f->arity == OP_DYNAMIC_ARITY || chance(20) ? dim2(8, 250) : f->arity; for (size_t i = 0; i < m; i++) { if (i) s[n++] = ","; s[n++] = misc[6 + rnd(4)]; } s[n++] = ")"; } else s[n++] = "x";
            for (size_t i = 0; i < k; i++) s[n++] = ")";
            if (!ok) s[rnd(n)] = misc[rnd(37)];
            one(&oc, n, s);
        }
        if (parse_tokens(NULL, 0, (const char*[]){""}, NULL, NULL) != PERR_ARGS_MALFORMED) FAIL("NULL context");
        ctx_destroy(&oc);
    }
    return h_done("(operator set, token sequence) pairs, hashed by their text");
}
