// Shape of the parse tree against an independent recursive-descent reading; redundant parentheses and spaces
#include "c02.h"
#include "engine/parsing/tokenizer.h"
static char *emit_tok[600]; static size_t en;
static void E(const char *s) { if (en < 590) emit_tok[en++] = (char*)s; }
// prints with random redundant parentheses; the reference decides what it means
static void emit(const TM *t, int par)
{
    bool p = t->kind == NTYPE_OPERATOR ? chance(par) : chance(par / 4);
    if (p) E(chance(80) ? "(" : "{");
    static char buf[600][40];
    if (t->kind == NTYPE_CONSTANT) { sprintf(buf[en % 600], "%.10g", t->val); E(buf[en % 600]); }
    else if (t->kind == NTYPE_VARIABLE) E(t->name);
    else switch (t->op->placement)
    {
        case OP_PLACE_PREFIX: E(t->op->name); emit(t->k[0], par); break;
        case OP_PLACE_POSTFIX: emit(t->k[0], par); E(t->op->name); break;
        case OP_PLACE_INFIX: emit(t->k[0], par); if (t->op != oc.glue_op || chance(50)) E(t->op->name); emit(t->k[1], par); break;
        case OP_PLACE_FUNCTION: E(t->op->name); if (t->op->arity != 0) { E("("); for (size_t i = 0; i < t->n; i++) { if (i) E(","); emit(t->k[i], par); } E(")"); } break;
    }
    if (p) E(chance(80) ? ")" : "}");
}
static void one(size_t n, const char **tok)
{
    static char txt[8000]; txt[0] = 0; for (size_t i = 0; i < n; i++) { strcat(txt, tok[i]); strcat(txt, "\x1f"); }
    CASE("ops: %s tokens: %s", os_desc, txt);
    TM *want = r_parse(&oc, n, tok);
    Node *res = NULL; size_t et = 0;
    ParserError e = parse_tokens(&oc, n, tok, &res, &et);
    if (e == PERR_SUCCESS)
    {
        TM *got = tm_take(res);
        if (!want) FAIL("accepted although not an expression, as %s", tm_str(got));
        if (!tm_eq(got, want, 1)) FAIL("read as %s instead of %s", tm_str(got), tm_str(want));
        tm_free(got);
        // spaces and parentheses around the whole and around leaves do not matter
        const char *s2[1400]; size_t n2 = 0; size_t where = chance(50) ? rnd(n) : n;
        int par = rnd(3); for (int i = 0; i < par; i++) s2[n2++] = "(";
        for (size_t i = 0; i < n; i++)
        {
            while (chance(20)) s2[n2++] = " ";
            bool leaf = tok[i][0] != ' ' && (strchr("xyzqT0123456789", tok[i][0]) != NULL) && !r_lookup(tok[i], OP_PLACE_FUNCTION) && !r_lookup(tok[i], OP_PLACE_PREFIX) && !r_lookup(tok[i], OP_PLACE_INFIX) && !r_lookup(tok[i], OP_PLACE_POSTFIX);
            if (leaf && i == where) { s2[n2++] = "("; s2[n2++] = tok[i]; s2[n2++] = ")"; } else s2[n2++] = tok[i];
        }
        for (int i = 0; i < par; i++) s2[n2++] = ")";
        Node *res2 = NULL; size_t et2;
        if (parse_tokens(&oc, n2, s2, &res2, &et2) != PERR_SUCCESS) FAIL("rejected with redundant spaces and parentheses");
        TM *got2 = tm_take(res2);
        if (!tm_eq(got2, want, 0)) FAIL("redundant spaces and parentheses change the tree to %s", tm_str(got2));
        tm_free(got2); free_tree(res2); free_tree(res);
    }
    else if (want) FAIL("rejected with error %d at token %zu, means %s", e, et, tm_str(want));
    tm_free(want);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    static const char *misc[] = {"(", ")", ",", "{", "}", " ", "x", "y", "1", "2.5", "x", "(", ")", "1.2.", "..", ".5", "_", "5.", "inf", "]"};
    while (h_more())
    {
        os_make(chance(60));
        for (int r = 0; r < 150; r++)
        {
            en = 0; TM *t = tm_random(1 + rnd(5)); if (tm_size(t) > 120) { tm_free(t); continue; }
            emit(t, chance(40) ? 0 : chance(50) ? 20 : 90);
            if (chance(15) && en) { size_t i = rnd(en); emit_tok[i] = (char*)(os_n && chance(50) ? os_op[rnd(os_n)]->name : misc[rnd(20)]); }
            if (en < 580) one(en, (const char**)emit_tok);
            tm_free(t);
        }
        ctx_destroy(&oc);
    }
    return h_done("(operator set, token sequence) pairs, hashed by their text");
}
