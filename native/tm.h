// Independent model of expression trees
#pragma once
#include "h.h"
#include "engine/tree/node.h"
#include "engine/tree/tree_util.h"
#include "engine/parsing/context.h"
typedef struct TM { int kind; double val; char name[80]; size_t id, tok; const Operator *op; size_t n; struct TM **k; } TM;
static TM *tm_new(int kind) { TM *t = calloc(1, sizeof *t); t->kind = kind; return t; }
static TM *tm_const(double v) { TM *t = tm_new(NTYPE_CONSTANT); t->val = v; return t; }
static TM *tm_var(const char *s) { TM *t = tm_new(NTYPE_VARIABLE); snprintf(t->name, sizeof t->name, "%s", s); return t; }
static TM *tm_op(const Operator *op, size_t n) { TM *t = tm_new(NTYPE_OPERATOR); t->op = op; t->n = n; t->k = calloc(n + 1, sizeof(TM*)); return t; }
static void tm_free(TM *t) { if (!t) return; for (size_t i = 0; i < t->n; i++) tm_free(t->k[i]); free(t->k); free(t); }
static TM *tm_copy(const TM *t) { TM *r = malloc(sizeof *r); *r = *t; if (t->kind == NTYPE_OPERATOR) { r->k = calloc(t->n + 1, sizeof(TM*)); for (size_t i = 0; i < t->n; i++) r->k[i] = tm_copy(t->k[i]); } return r; }
static Node *tm_build(const TM *t)
{
    if (t->kind == NTYPE_CONSTANT) return malloc_constant_node(t->val, t->tok);
    if (t->kind == NTYPE_VARIABLE) { Node *r = malloc_variable_node(t->name, t->id, t->tok); return r; }
    Node *r = malloc_operator_node(t->op, t->n, t->tok);
    for (size_t i = 0; i < t->n; i++) set_child(r, i, tm_build(t->k[i]));
    return r;
}
static TM *tm_take(const Node *x)
{
    if (x == NULL) FAIL("tree contains a NULL operand");
    TM *t;
    switch (get_type(x))
    {
        case NTYPE_CONSTANT: t = tm_const(get_const_value(x)); break;
        case NTYPE_VARIABLE: t = tm_var(get_var_name(x)); t->id = get_id(x); break;
        case NTYPE_OPERATOR: t = tm_op(get_op(x), get_num_children(x)); for (size_t i = 0; i < t->n; i++) t->k[i] = tm_take(get_child(x, i)); break;
        default: FAIL("node of unknown kind"); return NULL;
    }
    t->tok = get_token_index(x);
    return t;
}
static bool deq(double a, double b) { return a == b || (isnan(a) && isnan(b)); }
// same expression; strict: every attribute
static bool tm_eq(const TM *a, const TM *b, int strict)
{
    if (a->kind != b->kind || (strict && a->tok != b->tok)) return false;
    if (a->kind == NTYPE_CONSTANT) return strict > 1 ? !memcmp(&a->val, &b->val, sizeof(double)) || deq(a->val, b->val) : deq(a->val, b->val);
    if (a->kind == NTYPE_VARIABLE) return !strcmp(a->name, b->name) && (!strict || a->id == b->id);
    if (a->op != b->op || a->n != b->n) return false;
    for (size_t i = 0; i < a->n; i++) if (!tm_eq(a->k[i], b->k[i], strict)) return false;
    return true;
}
static size_t tm_size(const TM *t) { size_t s = 1; for (size_t i = 0; i < t->n; i++) s += tm_size(t->k[i]); return s; }
static char *tm_s(char *o, const TM *t)
{
    if (t->kind == NTYPE_CONSTANT) return o + sprintf(o, "%.17g", t->val);
    if (t->kind == NTYPE_VARIABLE) return o + sprintf(o, "%s", t->name);
    o += sprintf(o, "[%s%c", t->op->name, "pixf"[t->op->placement]);
    for (size_t i = 0; i < t->n; i++) { *o++ = ' '; o = tm_s(o, t->k[i]); }
    *o++ = ']'; *o = 0; return o;
}
static const char *tm_str(const TM *t) { static char b[4][20000]; static int w; w = (w + 1) % 4; if (tm_size(t) > 400) return "(large)"; tm_s(b[w], t); return b[w]; }

// random consistent operator sets
static ParsingContext oc; static const Operator *os_op[80]; static size_t os_n; static char os_desc[6000];
static int fixed_assoc[256];
static void os_make(bool glue)
{
    static const char *sym[] = {"+", "-", "*", "/", "^", "!", "<", "<=", "&", "|", "++", "--", "+-", "**", "%", "->", "!!", "=", "=="};
    static const char *let[] = {"mod", "and", "C"};
    static const char *fun[] = {"f", "g", "sum", "h", "e", "nul", "sin"};
    oc = ctx_create(); os_n = 0; char *d = os_desc; *d = 0;
    for (int i = 0; i < 256; i++) fixed_assoc[i] = rnd(2);
    int want = 2 + rnd(9); if (chance(5)) want += rnd(25);
    static const int wide[] = { 6, 6, 6, 10, 2, 254 }; int prange = wide[rnd(6)];
    for (int k = 0; k < want; k++)
    {
        Operator o; const char *s = sym[rnd(19)]; int p = prange == 254 && chance(60) ? 1 + dim2(20, 253) : 1 + rnd(prange);
        switch (rnd(10))
        {
            case 0: case 1: case 2: case 3: if (chance(12)) s = let[rnd(3)]; o = op_get_infix(s, p, fixed_assoc[p] ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT); break;
            case 4: case 5: o = op_get_prefix(s, p); break;
            case 6: case 7: o = op_get_postfix(s, p); break;
            default: { static const size_t ar[] = {0, 1, 1, 2, 3, OP_DYNAMIC_ARITY, OP_DYNAMIC_ARITY}; size_t a = chance(5) ? dim2(8, 12) : ar[rnd(7)]; s = fun[rnd(7)]; o = op_get_function(s, a); } break;
        }
        // a name of an infix operator that is a postfix operator as well is ambiguous
        if (o.placement == OP_PLACE_INFIX && ctx_lookup_op(&oc, s, OP_PLACE_POSTFIX)) continue;
        if (o.placement == OP_PLACE_POSTFIX && ctx_lookup_op(&oc, s, OP_PLACE_INFIX)) continue;
        const Operator *r = ctx_add_op(&oc, o);
        if (!r) continue;
        os_op[os_n++] = r;
        if (o.placement == OP_PLACE_FUNCTION) d += sprintf(d, "%s/%d ", s, (int)(ssize_t)o.arity);
        else d += sprintf(d, "%s%c%d%s ", s, "pix"[o.placement], p, o.placement == OP_PLACE_INFIX ? (o.assoc == OP_ASSOC_LEFT ? "l" : "r") : "");
    }
    if (glue)
    {
        size_t i = rnd(os_n + 1);
        if (i < os_n && (os_op[i]->arity == 2 || os_op[i]->arity == OP_DYNAMIC_ARITY) && ctx_set_glue_op(&oc, os_op[i])) d += sprintf(d, "glue:%s", os_op[i]->name);
    }
}
static const char *tm_vars[] = {"x", "y", "z", "xx", "ab", "q_", "T"};
static double digits10(void) { double n = (double)(rnd64() % 10000000000ull), v = chance(30) ? n : n / pow(10, (double)rnd(10)); return v < 1e-3 ? n : v; }
static double tm_constant(void) { switch (rnd(5)) { case 0: return rnd(10); case 1: return rnd(1000); case 2: return rnd(100) / 4.0; case 3: return chance(25) ? near_new(digits10(), false) : rnd(1000) / 100.0; default: return rnd(3); } }
static void long_name(char *o) { size_t n = 1 + dim2(12, 70); for (size_t i = 0; i < n; i++) o[i] = "xyz_AZ[]w"[rnd(i ? 9 : 3)]; o[n] = 0; }
static TM *tm_random(int depth)
{
    TM *t;
    if (depth <= 0 || chance(15) || os_n == 0) { t = chance(50) ? tm_const(tm_constant()) : tm_var(tm_vars[rnd(7)]); t->tok = dim2(50, 5000); t->id = rnd(4); if (t->kind == NTYPE_VARIABLE && chance(4)) long_name(t->name); return t; }
    if (depth >= 4 && chance(2))   // a chain
    {
        size_t len = dim2(12, 60); t = tm_const(1); int side = rnd(3);
        while (len-- > 0) { const Operator *o = os_op[rnd(os_n)]; size_t n = o->arity == OP_DYNAMIC_ARITY ? 1 + rnd(3) : o->arity; if (!n) continue; TM *u = tm_op(o, n); u->tok = dim2(50, 5000); size_t at = side == 0 ? 0 : side == 1 ? n - 1 : rnd(n); for (size_t i = 0; i < n; i++) u->k[i] = i == at ? t : tm_random(0); t = u; }
        return t;
    }
    const Operator *o = os_op[rnd(os_n)];
    size_t n = o->arity == OP_DYNAMIC_ARITY ? (depth > 3 ? rnd(5) : dim(5)) : o->arity;
    t = tm_op(o, n); t->tok = dim2(50, 5000);
    for (size_t i = 0; i < n; i++) t->k[i] = tm_random(n > 5 && chance(80) ? 0 : depth - 1 - (int)rnd(2));
    return t;
}
