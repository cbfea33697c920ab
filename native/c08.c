// Built-in operators against independent definitions, looked up by name
#include "h.h"
#include "client/core/arith_context.h"
#include "client/core/arith_evaluation.h"
#include "client/core/history.h"
#include "client/simplification/propositional_context.h"
#include "client/simplification/propositional_evaluation.h"
#include "engine/tree/tree_util.h"
#include "engine/tree/node.h"
#include "engine/parsing/parser.h"
#include "util/console_util.h"
#include <float.h>
#define PF OP_PLACE_PREFIX
#define IN OP_PLACE_INFIX
#define PO OP_PLACE_POSTFIX
#define FU OP_PLACE_FUNCTION
enum { NV = 1000 };   // not a value: error expected
typedef struct { const char *name; OpPlacement pl; int ar; } Ent;   // ar -1: dynamic
static const Ent tab[] = {
 {"$",PF,1},{"'",PO,1},{"deriv",FU,2},{"+",IN,2},{"-",IN,2},{"*",IN,2},{"/",IN,2},{"^",IN,2},{"C",IN,2},{"mod",IN,2},{"+",PF,1},{"-",PF,1},{"!",PO,1},{"%",PO,1},
 {"exp",FU,1},{"root",FU,2},{"sqrt",FU,1},{"log",FU,2},{"ln",FU,1},{"ld",FU,1},{"lg",FU,1},{"sin",FU,1},{"cos",FU,1},{"tan",FU,1},{"asin",FU,1},{"acos",FU,1},{"atan",FU,1},
 {"sinh",FU,1},{"cosh",FU,1},{"tanh",FU,1},{"asinh",FU,1},{"acosh",FU,1},{"atanh",FU,1},{"max",FU,-1},{"min",FU,-1},{"abs",FU,1},{"ceil",FU,1},{"floor",FU,1},{"round",FU,1},
 {"trunc",FU,1},{"frac",FU,1},{"sgn",FU,1},{"sum",FU,-1},{"prod",FU,-1},{"avg",FU,-1},{"gcd",FU,2},{"lcm",FU,2},{"rand",FU,2},{"fib",FU,1},{"gamma",FU,1},{"var",FU,-1},
 {"pi",FU,0},{"e",FU,0},{"phi",FU,0},{"clight",FU,0},{"csound",FU,0} };
#define NTAB (sizeof tab / sizeof *tab)
static double ipow(double b, long e) { if (e < 0) return 1 / ipow(b, -e); double r = 1; while (e--) r *= b; return r; }
static double igcd(double a, double b) { long x = labs((long)a), y = labs((long)b); if (!x) return y; if (!y) return x; long m = x < y ? x : y; while (x % m || y % m) m--; return m; }
// returns 0: no opinion, 1: value, 2: error (code in *v)
static int want(const Ent *t, size_t n, const double *a, double *v)
{
    #define IS(s, p) (!strcmp(t->name, s) && t->pl == p)
    #define VAL(x) do { *v = (x); return 1; } while (0)
    #define ERR(x) do { *v = (x); return 2; } while (0)
    #define INT(x) ((x) == floor(x) && fabs(x) < 1e6)
    if (IS("$",PF)) VAL(a[0]);
    if (IS("'",PO) || IS("deriv",FU)) ERR(LISTENERERR_IMPOSSIBLE_DERIV);
    if (IS("+",IN)) VAL(a[0] + a[1]);
    if (IS("-",IN)) VAL(a[0] - a[1]);
    if (IS("*",IN)) VAL(a[0] * a[1]);
    if (IS("/",IN)) { if (a[1] == 0) ERR(LISTENERERR_DIVISION_BY_ZERO); VAL(a[0] / a[1]); }
    if (IS("^",IN)) { if (a[0] == 0 && a[1] <= 0) ERR(LISTENERERR_DIVISION_BY_ZERO);
        if (a[0] < 0 && a[1] < 1 && a[1] != floor(a[1])) ERR(LISTENERERR_COMPLEX_SOLUTION);
        if (a[0] < 0 && a[1] != floor(a[1])) return 0;
        if (INT(a[1]) && fabs(a[1]) < 200) VAL(ipow(a[0], (long)a[1])); if (a[0] <= 0) return 0; VAL(exp(a[1] * log(a[0]))); }
    if (IS("C",IN)) { if (!INT(a[0]) || !INT(a[1]) || a[0] < 0 || a[1] < 0 || a[0] > 60) return 0; if (a[1] > a[0]) VAL(0);
        static double p[64][64]; for (int i = 0; i < 64; i++) { p[i][0] = p[i][i] = 1; for (int j = 1; j < i; j++) p[i][j] = p[i-1][j-1] + p[i-1][j]; } VAL(p[(int)a[0]][(int)a[1]]); }
    if (IS("mod",IN)) { if (a[1] == 0) return 0; VAL(INT(a[0]) && INT(a[1]) ? (double)((long)a[0] % (long)a[1]) : (double)fmodl(a[0], a[1])); }
    if (IS("+",PF)) VAL(a[0]);
    if (IS("-",PF)) VAL(-a[0]);
    if (IS("!",PO)) { if (!INT(a[0]) || a[0] < 0 || a[0] > 180) return 0; double r = 1; for (int i = 2; i <= a[0]; i++) r *= i; VAL(r); }
    if (IS("%",PO)) VAL(a[0] / 100);
    if (IS("exp",FU)) VAL(pow(2.718281828459045235, a[0]));
    if (IS("root",FU)) { if (a[0] < 0) ERR(LISTENERERR_COMPLEX_SOLUTION); if (a[0] == 0 || a[1] == 0) return 0; VAL(exp(log(a[0]) / a[1])); }
    if (IS("sqrt",FU)) { if (a[0] < 0) ERR(LISTENERERR_COMPLEX_SOLUTION); VAL(a[0] == 0 ? 0 : exp(log(a[0]) / 2)); }
    if (IS("log",FU)) { if (a[0] <= 0 || a[1] <= 0 || fabs(a[1] - 1) < 1e-3) return 0; VAL(log2(a[0]) / log2(a[1])); }
    if (IS("ln",FU)) { if (a[0] <= 0) return 0; VAL(log2(a[0]) * 0.693147180559945309); }
    if (IS("ld",FU)) { if (a[0] <= 0) return 0; VAL(log(a[0]) / 0.693147180559945309); }
    if (IS("lg",FU)) { if (a[0] <= 0) return 0; VAL(log(a[0]) / 2.302585092994045684); }
    if (fabs(a[0]) < 1e3 || t->ar != 1) {
    if (IS("sin",FU)) VAL((double)sinl(a[0]));
    if (IS("cos",FU)) VAL((double)cosl(a[0]));
    if (IS("tan",FU)) { if (fabs(cos(a[0])) < 1e-3) return 0; VAL((double)(sinl(a[0]) / cosl(a[0]))); }
    if (IS("asin",FU)) { if (fabs(a[0]) > 0.999) return 0; VAL(atan(a[0] / sqrt(1 - a[0] * a[0]))); }
    if (IS("acos",FU)) { if (fabs(a[0]) > 0.999) return 0; VAL(1.570796326794896619 - atan(a[0] / sqrt(1 - a[0] * a[0]))); }
    if (IS("atan",FU)) VAL(atan2(a[0], 1));
    if (fabs(a[0]) < 300) {
    if (IS("sinh",FU)) VAL((exp(a[0]) - exp(-a[0])) / 2);
    if (IS("cosh",FU)) VAL((exp(a[0]) + exp(-a[0])) / 2); }
    if (IS("tanh",FU)) { if (fabs(a[0]) > 20) return 0; double p = exp(2 * a[0]); VAL((p - 1) / (p + 1)); }
    if (IS("asinh",FU)) VAL((double)((a[0] < 0 ? -1 : 1) * logl(fabsl(a[0]) + sqrtl((long double)a[0] * a[0] + 1))));
    if (IS("acosh",FU)) { if (a[0] < 1) return 0; VAL((double)logl(a[0] + sqrtl((long double)a[0] * a[0] - 1))); }
    if (IS("atanh",FU)) { if (fabs(a[0]) > 0.999) return 0; VAL((double)(0.5L * logl((1 + (long double)a[0]) / (1 - (long double)a[0])))); }
    }
    if (IS("max",FU)) { if (!n) return 0; double r = a[0]; for (size_t i = 1; i < n; i++) r = a[i] > r ? a[i] : r; VAL(r); }
    if (IS("min",FU)) { if (!n) return 0; double r = a[0]; for (size_t i = 1; i < n; i++) r = a[i] < r ? a[i] : r; VAL(r); }
    if (IS("abs",FU)) VAL(a[0] < 0 ? -a[0] : a[0]);
    if (fabs(a[0]) < 1e9 || t->ar != 1) { double w = (double)(long)(t->ar == 1 ? a[0] : 0), fl = w > a[0] ? w - 1 : w;
    if (IS("ceil",FU)) VAL(fl == a[0] ? fl : fl + 1);
    if (IS("floor",FU)) VAL(fl);
    if (IS("round",FU)) VAL(a[0] >= 0 ? (double)(long)(a[0] + 0.5) : -(double)(long)(-a[0] + 0.5));
    if (IS("trunc",FU)) VAL(w);
    if (IS("frac",FU)) VAL(a[0] - fl); }
    if (IS("sgn",FU)) VAL((a[0] > 0) - (a[0] < 0));
    if (IS("sum",FU)) { double r = 0; for (size_t i = n; i-- > 0;) r += a[i]; VAL(r); }
    if (IS("prod",FU)) { double r = 1, lg = 0; for (size_t i = 0; i < n; i++) if (a[i] != 0) lg += fabs(log(fabs(a[i]))); if (lg > 650) return 0; for (size_t i = 0; i < n; i++) r *= a[i]; VAL(r); }
    if (IS("avg",FU)) { if (!n) return 0; double r = 0; for (size_t i = 0; i < n; i++) r += a[i]; VAL(r / (double)n); }
    if (IS("gcd",FU)) { if (fabs(a[0]) < 1e4 && fabs(a[1]) < 1e4) { double b[2] = { (double)(long)a[0], (double)(long)a[1] }; VAL(igcd(b[0], b[1])); } if (!INT(a[0]) || !INT(a[1]) || fabs(a[0]) > 1e4 || fabs(a[1]) > 1e4) return 0; VAL(igcd(a[0], a[1])); }
    if (IS("lcm",FU)) { if (fabs(a[0]) < 1e4 && fabs(a[1]) < 1e4 && (fabs(a[0]) >= 1 || fabs(a[1]) >= 1)) { double b[2] = { (double)(long)a[0], (double)(long)a[1] }; VAL(fabs(b[0] * b[1]) / igcd(b[0], b[1])); } if (!INT(a[0]) || !INT(a[1]) || fabs(a[0]) > 1e4 || fabs(a[1]) > 1e4 || (a[0] == 0 && a[1] == 0)) return 0; VAL(fabs(a[0] * a[1]) / igcd(a[0], a[1])); }
    if (IS("fib",FU)) { if (!INT(a[0]) || fabs(a[0]) > 20) return 0; double x = 0, y = 1; int m = abs((int)a[0]); for (int i = 0; i < m; i++) { double z = x + y; x = y; y = z; } VAL(a[0] < 0 && m % 2 == 0 ? -x : x); }
    if (IS("gamma",FU)) { if (!INT(a[0]) || a[0] < 1 || a[0] > 50) return 0; double r = 1; for (int i = 2; i < a[0]; i++) r *= i; VAL(r); }
    if (IS("var",FU)) { if (!n) return 0; long double u = 0, s = 0; for (size_t i = 0; i < n; i++) u += a[i]; u /= n; for (size_t i = 0; i < n; i++) s += (a[i] - u) * (a[i] - u); VAL((double)(s / n)); }
    if (IS("pi",FU)) VAL(3.14159265359);
    if (IS("e",FU)) VAL(2.71828182846);
    if (IS("phi",FU)) VAL(1.61803398874);
    if (IS("clight",FU)) VAL(299792458);
    if (IS("csound",FU)) VAL(343.2);
    return 0;
}
static double num0(void);
static double num(void) { return near_new(num0(), true); }
static double num0(void)
{
    static const double ext[] = { 1e-13, 1e-9, 1e-30, 1e-300, 5e-324, 1e17, 1e300, 9007199254740993., 1e10, 0.1, 0.3, 1e155 };
    switch (rnd(14)) {
        case 12: { double v = ext[rnd(12)]; return chance(50) ? v : -v; } case 13: return (double)rnd(200);
        case 0: return 0; case 1: return (double)rnd(10); case 2: return -(double)rnd(10); case 3: return (double)rnd(60);
        case 4: return (double)rnd(2001) / 1000 - 1; case 5: return (double)rnd(100000) / 1000; case 6: return -(double)rnd(100000) / 1000;
        case 7: return (double)rnd(1000); case 8: return (double)rnd(21) - 10; case 9: return ((double)rnd(41) - 20) / 2; case 10: return (double)rnd(100000); default: return (double)rnd(200) / 100; }
}
static bool close_to(const Ent *t, double x, double y, double scale) { static const char *ex[] = { "$", "+", "-", "*", "/", "mod", "abs", "max", "min", "sgn", "floor", "ceil", "trunc", "!" }; for (int i = 0; i < 13; i++) if (!strcmp(t->name, ex[i]) && !isnan(x)) return x == y;  if (isnan(x) || isnan(y)) return isnan(x) && isnan(y); if (isinf(x) || isinf(y)) return x == y || fabs(x) > 1e300 || fabs(y) > 1e300; return fabs(x - y) <= 1e-9 * (fabs(x) + fabs(y) + scale) + 1e-11; }
static char argbuf[4096]; static const char *args_str(size_t n, const double *a) { size_t k = 0; argbuf[0] = 0; for (size_t i = 0; i < n && k < 4000; i++) k += sprintf(argbuf + k, "%s%.17g", i ? "," : "", a[i]); return argbuf; }
static void one(ParsingContext *ctx, bool prop)
{
    const Ent *t = &tab[rnd(NTAB)];
    double a[40] = {0}; size_t n = t->ar >= 0 ? (size_t)t->ar : (chance(10) ? 0 : 1 + rnd(chance(20) ? 40 : 5)); for (size_t i = 0; i < n; i++) a[i] = num();
    if (n && (!strcmp(t->name, "max") || !strcmp(t->name, "min")) && chance(5)) { for (size_t i = 0; i < n; i++) a[i] = (chance(80) ? -1 : 1) * (chance(30) ? INFINITY : 1.7e308); if (t->name[1] == 'i') for (size_t i = 0; i < n; i++) a[i] = -a[i]; }
    if (n == 2 && chance(15)) a[1] = a[0];
    CASE("%s %d (%s)%s", t->name, t->pl, args_str(n, a), prop ? " [conditions]" : "");
    const Operator *op = ctx_lookup_op(ctx, t->name, t->pl);
    if (!op) FAIL("operator is not registered");
    if (t->ar >= 0 ? op->arity != (size_t)t->ar : op->arity != OP_DYNAMIC_ARITY) FAIL("wrong arity %zu", op->arity);
    double v = 0, out = -777; 
    if (!strcmp(t->name, "rand") && t->pl == FU) {
        int lo = (int)rnd(40) - 20, hi = lo + 1 + (int)rnd(20); a[0] = lo; a[1] = hi; CASE("rand(%d,%d)", lo, hi);
        ListenerError e = prop ? prop_op_evaluate(op, 2, a, &out) : arith_op_evaluate(op, 2, a, &out);
        if (e || out < lo || out >= hi || out != floor(out)) FAIL("result %g", out); return; }
    int w = want(t, n, a, &v);
    if (!w) return;
    double *arg = malloc((n ? n : 1) * sizeof(double)); memcpy(arg, a, n * sizeof(double));
    ListenerError e = prop ? prop_op_evaluate(op, n, arg, &out) : arith_op_evaluate(op, n, arg, &out);
    if (memcmp(arg, a, n * sizeof(double))) FAIL("arguments changed"); free(arg);
    double scale = 0; for (size_t i = 0; i < n; i++) if (t->ar == -1 && strcmp(t->name, "prod")) scale += fabs(a[i]) * (strcmp(t->name, "var") ? 1 : fabs(a[i]));
    if (w == 2 ? (double)e != v : (e != LISTENERERR_SUCCESS || !close_to(t, out, v, scale))) FAIL("status %d value %.17g, expected %s %.17g", e, out, w == 2 ? "error" : "value", v);
}
static void history(void)
{
    static double h[64]; init_history(); size_t n = rnd(30); CASE("history of %zu", n);
    for (size_t i = 0; i < n; i++) { h[i] = num(); history_add(h[i]); }
    const Operator *at = ctx_lookup_op(g_ctx, "@", PF), *ans = ctx_lookup_op(g_ctx, "ans", FU);
    for (int k = -2; k < (int)n + 3; k++) { double a = k, out = 0; ListenerError e = arith_op_evaluate(at, 1, &a, &out);
        if (k >= 0 && k < (int)n ? (e || out != h[n - 1 - k]) : e != LISTENERERR_HISTORY_NOT_SET) FAIL("@%d gives %d %g", k, e, out); }
    double out = 0; ListenerError e = arith_op_evaluate(ans, 0, NULL, &out); if (n ? (e || out != h[n-1]) : e != LISTENERERR_HISTORY_NOT_SET) FAIL("ans gives %d %g", e, out);
    unload_history();
}
static void rel(void)
{
    static const char *nm[] = { "==", "!=", ">", "<", ">=", "<=", "||", "!", "TRUE", "FALSE", "CONST", "VAR", "OP" }; int k = rnd(13);
    double a[2] = { num(), num() }, out = -777; if (chance(30)) a[1] = a[0]; if (k == 6 || k == 7) { if (chance(50)) a[0] = rnd(2); if (chance(50)) a[1] = rnd(2); }
    CASE("condition %s (%.17g,%.17g)", nm[k], a[0], a[1]);
    const Operator *op = ctx_lookup_op(g_propositional_ctx, nm[k], k < 7 ? IN : k == 7 ? PF : FU); if (!op) FAIL("not registered");
    if (op->arity != (k < 7 ? 2u : k == 7 ? 1u : 0u)) FAIL("arity");
    ListenerError e = prop_op_evaluate(op, op->arity, a, &out);
    if (e) FAIL("error %d", e);
    if (k >= 10) { double all[3]; for (int i = 0; i < 3; i++) prop_op_evaluate(ctx_lookup_op(g_propositional_ctx, nm[10 + i], FU), 0, a, &all[i]); if (all[0] == all[1] || all[1] == all[2] || all[0] == all[2]) FAIL("types are not distinct"); return; }
    bool w = k == 0 ? a[0] == a[1] : k == 1 ? a[0] != a[1] : k == 2 ? a[0] > a[1] : k == 3 ? a[0] < a[1] : k == 4 ? a[0] >= a[1] : k == 5 ? a[0] <= a[1] : k == 6 ? (a[0] != 0 || a[1] != 0) : k == 7 ? a[0] == 0 : k == 8;
    if (out != (w ? 1 : 0)) FAIL("gives %g", out);
}
// ---- whole conditions: text built together with its expected truth value
static char *pexpr(int d, char *p, int *type)   // random arithmetic expression with variables; *type 0 const 1 var 2 op
{
    switch (d <= 0 ? rnd(2) : rnd(4)) {
        case 0: *type = 0; return p + sprintf(p, "%d", (int)rnd(3));
        case 1: *type = 1; return p + sprintf(p, "%c", "xyz"[rnd(3)]);
        case 2: { *type = 2; int t; p += sprintf(p, "("); p = pexpr(d - 1, p, &t); p += sprintf(p, "%c", "+-*"[rnd(3)]); p = pexpr(d - 1, p, &t); return p + sprintf(p, ")"); }
        default: { *type = 2; int t; p += sprintf(p, "sum("); p = pexpr(d - 1, p, &t); p += sprintf(p, ","); p = pexpr(d - 1, p, &t); return p + sprintf(p, ")"); } }
}
static void cond(void)
{
    char txt[4096], e1[1024], e2[1024]; int t1, t2; bool w;
    *pexpr(rnd(4), e1, &t1) = 0; *pexpr(rnd(4), e2, &t2) = 0; if (chance(30)) strcpy(e2, e1), t2 = t1;
    static const char *tn[] = { "CONST", "VAR", "OP" };
    switch (rnd(5)) {
        case 0: { int k = rnd(3); sprintf(txt, "type(%s)==%s", e1, tn[k]); w = t1 == k; break; }
        case 1: sprintf(txt, "equal(%s,%s)", e1, e2); w = !strcmp(e1, e2); break;
        case 2: sprintf(txt, "!equal(%s,%s)", e1, e2); w = strcmp(e1, e2) != 0; break;
        case 3: { int k = rnd(3); sprintf(txt, "type(%s)!=%s||equal(%s,%s)", e1, tn[k], e2, e1); w = t1 != k || !strcmp(e1, e2); break; }
        default: sprintf(txt, "%s>1", e1); { int c = e1[1] == 0 && e1[0] >= '0' && e1[0] <= '9'; if (!c && !strpbrk(e1, "xyz")) return; w = c && e1[0] > '1'; } }
    CASE("%s", txt);
    ParsingResult r; if (!parse_input(g_propositional_ctx, txt, &r)) FAIL("does not parse");
    Node *n = r.tree; free_result(&r, false);
    bool b = propositional_checker(&n);
    if (b != w) FAIL("condition is %d", b);
    free_tree(n);
}
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util(); init_history(); init_arith_ctx(); init_propositional_ctx();
    unload_history();
    while (h_more()) for (int i = 0; i < 300; i++) { size_t k = rnd(20); if (k == 0) history(); else if (k < 4) rel(); else if (k < 7) cond(); else if (k < 9) one(g_propositional_ctx, true); else one(g_ctx, false); }
    init_history(); unload_propositional_ctx(); unload_arith_ctx(); unload_history(); unload_console_util();
    return h_done("operators drawn by name and placement, arguments including zeros, negatives, equal pairs and up to 40 arguments; whole conditions with known truth value");
}
