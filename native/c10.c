// Operator registry against a plain list of live operators
#include "h.h"
#include "engine/parsing/context.h"
#include "engine/parsing/tokenizer.h"
#include "engine/parsing/parser.h"
#include "engine/tree/tree_util.h"
#include "util/console_util.h"
static const char *names[] = {"+", "-", "+-", "++", "f", "fo", "foo", "mod", "<", "<=", "!", "g", "h", "foobar", "m", "mo", "mod2", "->", "-->", "=", "==", "===", "!!", "z"};
#define NN 24
typedef struct { char name[8]; int pl, prec, assoc; size_t ar; const Operator *p; } M;
static M live[128]; static size_t nl;
static M *find(const char *n, int pl) { for (size_t i = 0; i < nl; i++) if (live[i].pl == pl && !strcmp(live[i].name, n)) return &live[i]; return NULL; }
static char hist[60000]; static size_t hl;
static void LOG(const char *f, ...) { va_list a; va_start(a, f); if (hl < sizeof hist - 200) hl += vsnprintf(hist + hl, 190, f, a); va_end(a); }
static void check_all(ParsingContext *c)
{
    for (int i = 0; i < NN; i++) 
    {
        bool any = false;
        for (int pl = 0; pl < OP_NUM_PLACEMENTS; pl++)
        {
            M *m = find(names[i], pl); const Operator *o = ctx_lookup_op(c, names[i], pl); any |= m != NULL;
            if ((o != NULL) != (m != NULL)) FAIL("lookup of %s/%d %s", names[i], pl, o ? "finds an operator" : "finds nothing");
            if (o && (o != m->p || strcmp(o->name, m->name) || o->placement != m->pl || o->arity != m->ar || (pl != OP_PLACE_FUNCTION && o->precedence != m->prec) || (pl == OP_PLACE_INFIX && o->assoc != m->assoc))) FAIL("lookup of %s/%d finds another operator", names[i], pl);
        }
        if (trie_contains(&c->keywords_trie, names[i], NULL) != any) FAIL("keyword %s %s", names[i], any ? "is missing" : "is left over");
    }
    for (size_t i = 0; i < nl; i++) for (size_t j = i + 1; j < nl; j++)
    {
        if (live[i].p->id == live[j].p->id) FAIL("operators %s/%d and %s/%d share an id", live[i].name, live[i].pl, live[j].name, live[j].pl);
        Node *a = malloc_operator_node(live[i].p, 0, 0), *b = malloc_operator_node(live[j].p, 0, 0); bool e = tree_equals(a, b); free_tree(a); free_tree(b);
        if (e) FAIL("operators %s/%d and %s/%d can not be distinguished", live[i].name, live[i].pl, live[j].name, live[j].pl);
    }
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    // the same name must be found through different copies of the string
    while (h_more())
    {
        ParsingContext c = ctx_create(); nl = 0; hl = 0; hist[0] = 0;
        size_t ops = dim2(60, 300); int ndef = 2 + rnd(chance(70) ? 10 : NN - 1);
        for (size_t s = 0; s < ops; s++)
        {
            const char *n = names[rnd(ndef)]; int pl = rnd(4); char tmp[8]; strcpy(tmp, n);
            if (chance(60))
            {
                int prec = (int)dim2(4, 254), assoc = rnd(2); Operator o;
                if (pl == OP_PLACE_PREFIX) o = op_get_prefix(n, prec); else if (pl == OP_PLACE_POSTFIX) o = op_get_postfix(n, prec); else if (pl == OP_PLACE_INFIX) o = op_get_infix(n, prec, assoc);
                else if (chance(30)) o = op_get_constant(n); else o = op_get_function(n, chance(30) ? OP_DYNAMIC_ARITY : rnd(4));
                bool ok = !find(n, pl);
                if (pl == OP_PLACE_INFIX) for (size_t i = 0; i < nl; i++) if (live[i].pl == OP_PLACE_INFIX && live[i].prec == prec && live[i].assoc != assoc) ok = false;
                LOG("add %s/%d prec %d assoc %d; ", n, pl, prec, assoc); CASE("%s", hist);
                const Operator *r = ctx_add_op(&c, o);
                if ((r != NULL) != ok) FAIL("addition %s", r ? "accepted" : "refused");
                if (r) { M *m = &live[nl++]; strcpy(m->name, n); m->pl = pl; m->prec = prec; m->assoc = assoc; m->ar = o.arity; m->p = r; }
            }
            else
            {
                LOG("delete %s/%d; ", n, pl); CASE("%s", hist);
                M *m = find(n, pl); bool r = ctx_delete_op(&c, tmp, pl);
                if (r != (m != NULL)) FAIL("deletion reports %d", r);
                if (m) { memmove(m, m + 1, (char*)&live[nl] - (char*)(m + 1)); nl--; }
            }
            memset(tmp, 'Z', 7);
            check_all(&c);
        }
        // several at once, one of them clashing
        if (chance(30) && !find("+", OP_PLACE_PREFIX) && !find("g", OP_PLACE_FUNCTION))
        {
            LOG("add two; "); CASE("%s", hist); bool r = ctx_add_ops(&c, 2, op_get_prefix("+", 3), op_get_function("g", 1)); if (!r) FAIL("ctx_add_ops refused");
            if (ctx_add_ops(&c, 2, op_get_prefix("+", 3), op_get_function("zz", 1))) FAIL("ctx_add_ops accepts a clash");
            const Operator *o = ctx_lookup_op(&c, "g", OP_PLACE_FUNCTION); if (!o || o->arity != 1) FAIL("operator of ctx_add_ops is missing");
        }
        // glue
        for (size_t i = 0; i < nl; i++) { bool w = live[i].p->arity == 2 || live[i].p->arity == OP_DYNAMIC_ARITY; const Operator *old = c.glue_op; if (ctx_set_glue_op(&c, live[i].p) != w) FAIL("glue-op %s", live[i].name); if (c.glue_op != (w ? live[i].p : old)) FAIL("glue-op not set"); }
        ctx_destroy(&c);
    }
    unload_console_util();
    return h_done("random sequences of up to 60 additions and deletions over 12 names sharing prefixes in all four placements, all lookups compared after each step");
}
