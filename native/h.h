// Common part of the native harnesses: random numbers, failure reports, time budget
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <math.h>
#include <unistd.h>

static uint64_t h_s;
static double h_budget; static struct timespec h_t0;
static const char *h_casefile; static int h_worker; static FILE *h_cf;
static unsigned long h_n, h_distinct;
static unsigned char h_seen[1 << 18];

static inline uint64_t rnd64(void) { h_s ^= h_s << 13; h_s ^= h_s >> 7; h_s ^= h_s << 17; return h_s * 0x2545F4914F6CDD1Dull; }
static inline size_t rnd(size_t n) { return n == 0 ? 0 : (size_t)((rnd64() >> 11) % n); }
static inline bool chance(int pct) { return (int)rnd(100) < pct; }
// numbers written into the current sources (h_new: only those not recorded before); sizes and values near them are tried
static double h_new[64], h_dict[128]; static size_t h_nnew, h_ndict; static char h_words[20][64]; static size_t h_nwords;
static size_t h_list(const char *v, double *o, size_t max) { const char *s = getenv(v); size_t n = 0; while (s && *s && n < max) { char *e; o[n++] = strtod(s, &e); if (e == s) { n--; break; } s = *e ? e + 1 : e; } return n; }
static void h_literals(void)
{
    h_nnew = h_list("VERIF_NEW", h_new, 64); h_ndict = h_list("VERIF_DICT", h_dict, 128);
    const char *s = getenv("VERIF_WORDS");
    while (s && *s && h_nwords < 20) { size_t n = strcspn(s, "\n"); if (n > 0 && n < 64) { memcpy(h_words[h_nwords], s, n); h_words[h_nwords++][n] = 0; } s += n; if (*s) s++; }
}
// a size: mostly below 'small', at times up to 'max', at times near a number of the sources
static size_t dim2(size_t small, size_t max)
{
    size_t r = rnd(100), x;
    if (r < 84) return rnd(small);
    if (r < 94 && h_nnew) x = (size_t)fmin(h_new[rnd(h_nnew)], 1e9) + rnd(5); 
    else if (r < 96 && h_ndict) x = (size_t)h_dict[rnd(h_ndict)] + rnd(5);
    else return rnd(max + 1);
    x = x > 2 ? x - 2 : 0; return x > max ? rnd(max + 1) : x;
}
static size_t h_dimmax = 40; static size_t dim(size_t small) { return dim2(small, h_dimmax); }
// a value near a number of the sources, or other
static double near_new(double other, bool neg)
{
    if (!h_nnew || !chance(12)) return other;
    double v = h_new[rnd(h_nnew)] + (double)rnd(5) - 2; if (fabs(v) < 1e7 && chance(30)) v += (double)rnd(100) / 100;
    if (fabs(v) > 9e9) return other;
    v = fabs(rint(v * 100) / 100); return neg && chance(20) ? -v : v;
}
static void h_init(int argc, char **argv)
{
    h_literals();
    uint64_t seed = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
    h_s = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 8; i++) rnd64();
    h_budget = argc > 2 ? atof(argv[2]) : 10; h_casefile = argc > 3 ? argv[3] : "/dev/null"; h_worker = argc > 4 ? atoi(argv[4]) : 0;
    clock_gettime(CLOCK_MONOTONIC, &h_t0);
    h_cf = fopen(h_casefile, "w+");
    setvbuf(stdout, NULL, _IOLBF, 0);
}
static double h_time(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - h_t0.tv_sec) + (t.tv_nsec - h_t0.tv_nsec) * 1e-9; }
static bool h_more(void) { return h_time() < h_budget; }
// The case about to be run; the file is left behind when the process dies
static char h_case[1 << 16];
static void CASE(const char *fmt, ...)
{
    va_list a; va_start(a, fmt); int n = vsnprintf(h_case, sizeof h_case, fmt, a); va_end(a);
    if (n >= (int)sizeof h_case) n = sizeof h_case - 1;
    uint32_t h = 2166136261u; for (int i = 0; i < n; i++) h = (h ^ (unsigned char)h_case[i]) * 16777619u;
    h ^= h >> 15;
    if (!(h_seen[(h >> 3) & ((1 << 18) - 1)] & (1 << (h & 7)))) { h_seen[(h >> 3) & ((1 << 18) - 1)] |= 1 << (h & 7); h_distinct++; }
    h_n++;
    if (h_cf) { rewind(h_cf); fwrite(h_case, 1, n, h_cf); fputc('\n', h_cf); fflush(h_cf); if (ftruncate(fileno(h_cf), n + 1)) {} }
    if (h_n == 3 || h_n == 40 || h_n == 300) { printf("SAMPLE "); for (int i = 0; i < n && i < 300; i++) putchar(h_case[i] == '\n' ? ';' : h_case[i]); putchar('\n'); }
}
static void FAIL(const char *fmt, ...)
{
    va_list a; va_start(a, fmt); printf("FAIL "); vprintf(fmt, a); va_end(a); printf(" | case: %s\n", h_case); fflush(stdout); _Exit(1);
}
static int h_done(const char *rule) { printf("COUNT %lu distinct %lu\n", h_n, h_distinct); printf("RULE %s\n", rule); return 0; }
