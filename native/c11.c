// Vectors and string builders against an array model
#include "h.h"
#include "util/vector.h"
#include "util/string_builder.h"
#include "util/iterator.h"
typedef unsigned char u8;
static u8 *M; static size_t n, es;
static char desc[1 << 15]; static size_t dl;
static void D(const char *f, ...) { va_list a; va_start(a, f); if (dl < sizeof desc - 64) dl += vsnprintf(desc + dl, 64, f, a); va_end(a); }
static void check(Vector *v)
{
    if (vec_count(v) != n) FAIL("count %zu instead of %zu", vec_count(v), n);
    for (size_t i = 0; i < n; i++) if (memcmp(vec_get(v, i), M + i * es, es)) FAIL("element %zu differs", i);
    if (n && memcmp(vec_peek(v), M + (n - 1) * es, es)) FAIL("peek");
    if (!n && vec_peek(v) != NULL) FAIL("peek of empty");
    for (int rep = 0; rep < 2; rep++)
    {
        static VectorIterator it; if (!rep) it = vec_get_iterator(v);
        for (size_t i = 0; i < n; i++) { void *p = iterator_get_next((Iterator*)&it); if (!p || memcmp(p, M + i * es, es)) FAIL("iterator at %zu", i); }
        if (iterator_get_next((Iterator*)&it) != NULL) FAIL("iterator does not end");
        iterator_reset((Iterator*)&it);
        if (rep == 0 && n)
        {
            // starting over in the middle
            for (size_t k = rnd(n < 5 ? n : 5) + 1; k > 0; k--) iterator_get_next((Iterator*)&it);
            iterator_reset((Iterator*)&it);
        }
    }
    if (v->elem_count > v->buffer_size) FAIL("representation");
}
static void vec_case(void)
{
    static const size_t sizes[] = {1, 2, 3, 4, 8, 12, 16, 24, 56, 100};
    es = sizes[rnd(10)]; n = 0; dl = 0; size_t st = dim2(6, 100);
    M = malloc(es * 30000); u8 buf[100 * 70];
    D("es=%zu start=%zu:", es, st);
    Vector v = vec_create(es, st);
    int ops = 1 + (int)dim2(60, 200);
    for (int k = 0; k < ops; k++)
    {
        int o = rnd(12);
        for (size_t i = 0; i < sizeof buf; i++) buf[i] = (u8)rnd64();
        switch (o)
        {
            case 0: case 1: case 2: D(" push"); CASE("%s", desc); { void *p = vec_push(&v, buf); memcpy(M + n++ * es, buf, es); if (p != vec_get(&v, n - 1)) FAIL("push result"); } break;
            case 3: D(" empty"); CASE("%s", desc); memcpy(vec_push_empty(&v), buf, es); memcpy(M + n++ * es, buf, es); break;
            case 4: case 5: { size_t c = dim2(20, 69); D(" many%zu", c); CASE("%s", desc); void *p = vec_push_many(&v, c, buf); memcpy(M + n * es, buf, c * es); n += c; if (c && p != vec_get(&v, n - c)) FAIL("push_many result"); } break;
            case 6: case 7: D(" pop"); CASE("%s", desc); { void *p = vec_pop(&v); if ((p != NULL) != (n > 0)) FAIL("pop"); if (n) { n--; if (memcmp(p, M + n * es, es)) FAIL("popped element"); } } break;
            case 8: if (chance(20)) { D(" clear"); CASE("%s", desc); vec_clear(&v); n = 0; } break;
            case 9: D(" trim"); CASE("%s", desc); vec_trim(&v); break;
            case 10: { size_t c = dim2(200, 3000); D(" ensure%zu", c); CASE("%s", desc); vec_ensure_size(&v, c); if (v.buffer_size < c) FAIL("ensure"); } break;
            default: if (n) { size_t i = rnd(n); D(" set%zu", i); CASE("%s", desc); memcpy(vec_get(&v, i), buf, es); memcpy(M + i * es, buf, es); } break;
        }
        check(&v);
    }
    vec_destroy(&v); free(M);
}
static void sb_case(void)
{
    dl = 0; static char ref[800000]; size_t len = 0; ref[0] = 0;
    size_t st = rnd(5) ? dim2(40, 200) : 0;
    StringBuilder b;
    if (chance(80)) { D("builder start=%zu:", st); CASE("%s", desc); b = strbuilder_create(st); }
    else { char *h = malloc(st + 1); for (size_t i = 0; i < st; i++) h[i] = 'a' + rnd(26); h[st] = 0; strcpy(ref, h); len = st; D("from heap %zu:", st); CASE("%s", desc); b = strbuilder_from_heapstring(h); }
    int ops = 1 + rnd(30);
    for (int k = 0; k < ops; k++)
    {
        static char t[20001]; size_t L = chance(2) ? rnd(20000) : chance(10) ? rnd(2500) : chance(60) ? rnd(12) : dim2(130, 2500);
        for (size_t i = 0; i < L; i++) t[i] = 32 + rnd(95); t[L] = 0;
        switch (rnd(7))
        {
            case 0: case 1: D(" app%zu", L); CASE("%s", desc); strbuilder_append(&b, "%s", t); len += sprintf(ref + len, "%s", t); break;
            case 2: { int x = (int)rnd64(); D(" fmt%zu", L); CASE("%s", desc); strbuilder_append(&b, "<%s|%d|%-.10g>", t, x, x / 7.0); len += sprintf(ref + len, "<%s|%d|%-.10g>", t, x, x / 7.0); } break;
            case 3: case 4: { char c = 32 + rnd(95); D(" chr"); CASE("%s", desc); strbuilder_append_char(&b, c); ref[len++] = c; ref[len] = 0; } break;
            case 5: D(" none"); CASE("%s", desc); strbuilder_append(&b, "%s", ""); break;
            default: if (chance(15)) { D(" clear"); CASE("%s", desc); strbuilder_clear(&b); len = 0; ref[0] = 0; } break;
        }
        if (strlen(strbuilder_to_str(&b)) != len || strcmp(strbuilder_to_str(&b), ref)) FAIL("string builder content after op %d", k);
    }
    vec_destroy(&b);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    while (h_more()) { for (int i = 0; i < 50; i++) { vec_case(); sb_case(); } }
    return h_done("operation histories (element size, start size, sequence of operations), hashed by their text");
}
