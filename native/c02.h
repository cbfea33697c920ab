// Independent reading of a token sequence: recursive descent with precedence climbing
#pragma once
#include "tm.h"
#include "engine/parsing/parser.h"
static const char **r_tok; static size_t r_n, r_i; static bool r_bad; static const ParsingContext *r_ctx;
static bool r_is(const char *s, const char *a, const char *b) { return !strcmp(s, a) || (b && !strcmp(s, b)); }
static const char *r_peek(void) { while (r_i < r_n && r_tok[r_i][0] == ' ') r_i++; return r_i < r_n ? r_tok[r_i] : NULL; }
// lookup by walking over the operator list
static const Operator *r_lookup(const char *s, OpPlacement p) { for (ListNode *n = r_ctx->op_list.first; n; n = listnode_get_next(n)) { Operator *o = listnode_get_data(n); if (o->placement == p && !strcmp(o->name, s)) return o; } return NULL; }
static TM *r_err(TM *a) { r_bad = true; tm_free(a); return NULL; }
static bool r_accept(const Operator *op, const Operator *min) { return min == NULL || !(op->precedence < min->precedence || (op->precedence == min->precedence && op->assoc == OP_ASSOC_LEFT)); }
static TM *r_climb(const Operator *min);
static bool r_close(void) { const char *t = r_peek(); if (t && r_is(t, ")", "}")) { r_i++; return true; } return false; }
static bool r_number(const char *s, double *o) { char *e; *o = strtod(s, &e); return *e == 0; }
static TM *r_operand(void)
{
    const char *t = r_peek(); if (!t) return r_err(NULL);
    if (r_is(t, "(", "{")) { r_i++; TM *e = r_climb(NULL); if (!e) return NULL; if (!r_close()) return r_err(e); return e; }
    if (r_is(t, ")", "}") || r_is(t, ",", NULL)) return r_err(NULL);
    const Operator *op = r_lookup(t, OP_PLACE_FUNCTION);
    if (op)
    {
        TM *f = tm_op(op, 0); f->tok = r_i; r_i++;
        if (op->arity == 0) return f;
        t = r_peek(); if (!t || !r_is(t, "(", "{")) return r_err(f);
        r_i++;
        if (!r_close())
            for (;;)
            {
                TM *a = r_climb(NULL); if (!a) { tm_free(f); return NULL; }
                f->k = realloc(f->k, (f->n + 2) * sizeof(TM*)); f->k[f->n++] = a;
                t = r_peek(); if (t && r_is(t, ",", NULL)) { r_i++; continue; }
                if (!r_close()) return r_err(f);
                break;
            }
        if (op->arity != OP_DYNAMIC_ARITY && op->arity != f->n) return r_err(f);
        return f;
    }
    op = r_lookup(t, OP_PLACE_PREFIX);
    if (op) { TM *f = tm_op(op, 1); f->tok = r_i; r_i++; f->k[0] = r_climb(op); if (!f->k[0]) { f->n = 0; tm_free(f); return NULL; } return f; }
    double v; TM *l;
    if (r_number(t, &v)) { l = tm_const(v); l->tok = r_i++; return l; }
    if (r_lookup(t, OP_PLACE_INFIX) || r_lookup(t, OP_PLACE_POSTFIX)) return r_err(NULL);
    char c = t[0]; if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '[' || c == ']')) return r_err(NULL);
    l = tm_var(t); l->tok = r_i++; return l;
}
static TM *r_climb(const Operator *min)
{
    TM *l = r_operand(); if (!l) return NULL;
    for (;;)
    {
        const char *t = r_peek(); if (!t || r_is(t, ")", "}") || r_is(t, ",", NULL)) return l;
        const Operator *op = r_lookup(t, OP_PLACE_INFIX); bool glue = false;
        if (!op)
        {
            op = r_lookup(t, OP_PLACE_POSTFIX);
            if (op) { if (!r_accept(op, min)) return l; TM *f = tm_op(op, 1); f->tok = r_i++; f->k[0] = l; l = f; continue; }
            op = r_ctx->glue_op; glue = true; if (!op) return r_err(l);
        }
        if (!r_accept(op, min)) return l;
        TM *f = tm_op(op, 2); f->tok = r_i; if (!glue) r_i++;
        f->k[0] = l; f->k[1] = r_climb(op); if (!f->k[1]) { f->n = 1; tm_free(f); return NULL; }
        l = f;
    }
}
static TM *r_parse(const ParsingContext *ctx, size_t n, const char **tok)
{
    r_ctx = ctx; r_n = n; r_tok = tok; r_i = 0; r_bad = false;
    TM *e = r_climb(NULL); if (!e) return NULL;
    if (r_peek()) return r_err(e);
    return e;
}
