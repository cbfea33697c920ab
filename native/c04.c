// print, read back, compare
#include "tm.h"
#include "engine/tree/tree_to_string.h"
#include "engine/parsing/parser.h"
#include "client/core/arith_context.h"
static void strip_esc(char *o, const char *s) { while (*s) { if (*s == 27) { while (*s && *s != 'm') s++; if (*s) s++; } else *o++ = *s++; } *o = 0; }
static void one(const TM *m, const ParsingContext *ctx)
{
    Node *t = tm_build(m);
    CASE("ops: %s tree: %s", os_desc, tm_str(m));
    char *s = tree_to_str(t, false), *c = tree_to_str(t, true);
    char *p = malloc(strlen(c) + 1); strip_esc(p, c);
    if (strcmp(p, s)) FAIL("colored output '%s' without escapes differs from '%s'", p, s);
    Node *u = parse_easy(ctx, s);
    if (u == NULL) FAIL("printed text '%s' does not parse", s);
    TM *r = tm_take(u), *again = tm_take(t);
    if (!tm_eq(again, m, 2)) FAIL("printing changed the tree");
    if (!tm_eq(r, m, 0)) FAIL("printed text '%s' reads as %s", s, tm_str(r));
    StringBuilder b = strbuilder_create(1); strbuilder_append(&b, "%s", "A:"); tree_append_to_strbuilder(&b, t, false);
    if (strncmp(strbuilder_to_str(&b), "A:", 2) || strcmp(strbuilder_to_str(&b) + 2, s)) FAIL("appended text differs"); vec_destroy(&b);
    tm_free(r); tm_free(again); free(s); free(c); free(p); free_tree(t); free_tree(u);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util(); 
    while (h_more())
    {
        bool arith = chance(30);
        if (arith) { init_arith_ctx(); os_n = 0; strcpy(os_desc, "arithmetic");
            for (ListNode *n = g_ctx->op_list.first; n; n = listnode_get_next(n)) { Operator *o = listnode_get_data(n); if (os_n < 20 && o->name[0] != '$' && o->name[0] != '@' && strcmp(o->name, "\'")) os_op[os_n++] = o; } }
        else os_make(false);
        for (int i = 0; i < 200; i++) { TM *m = tm_random(1 + rnd(6)); if (tm_size(m) < 300) one(m, arith ? g_ctx : &oc); tm_free(m); }
        if (arith) unload_arith_ctx(); else ctx_destroy(&oc);
    }
    return h_done("(operator set, tree) pairs, hashed by their text");
}
