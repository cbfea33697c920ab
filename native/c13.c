// Prefix tree against a sorted string map
#include "h.h"
#include "util/trie.h"
#include "util/iterator.h"
#define MAXS 400
static char *K[MAXS]; static int V[MAXS]; static size_t n;
static char desc[20000]; static size_t dl;
static void D(const char *f, ...) { va_list a; va_start(a, f); if (dl < sizeof desc - 64) dl += vsnprintf(desc + dl, 64, f, a); va_end(a); }
static int find(const char *s) { for (size_t i = 0; i < n; i++) if (!strcmp(K[i], s)) return i; return -1; }
static const char *alpha; static int maxlen; static char fan[8];
static void gen(char *o) { if (fan[0] && chance(80)) { char c = alpha[rnd(strlen(alpha))]; sprintf(o, "%s%c", fan, c); return; } if (h_nwords && chance(4)) { const char *w = h_words[rnd(h_nwords)]; size_t l = 0; while (w[l] && l < 100) l++; if (l < 100) { bool ok = true; for (size_t i = 0; i < l; i++) ok &= w[i] >= '!' && w[i] <= '|'; if (ok) { strcpy(o, w); return; } } } int L = chance(4) ? 0 : 1 + rnd(maxlen); for (int i = 0; i < L; i++) o[i] = alpha[rnd(strlen(alpha))]; o[L] = 0; }
static void check(Trie *t, bool all)
{
    if (trie_count(t) != n) FAIL("count %zu instead of %zu", trie_count(t), n);
    for (size_t i = 0; i < n; i++) { int *d = NULL; if (!trie_contains(t, K[i], (void**)&d)) FAIL("'%s' is lost", K[i]); if (*d != V[i]) FAIL("payload of '%s'", K[i]); if (!trie_contains(t, K[i], NULL)) FAIL("'%s' is lost", K[i]); }
    for (int k = 0; k < 12; k++)
    {
        char s[400]; gen(s); if (chance(30)) strcat(s, chance(50) ? " x" : "\xC3\xA4"); if (chance(20) && n) { strcpy(s, K[rnd(n)]); char e[200]; gen(e); strcat(s, e); } if (chance(10) && n) { strcpy(s, K[rnd(n)]); if (*s) s[rnd(strlen(s))] = 0; }
        int *d = NULL; int f = find(s);
        if (trie_contains(t, s, (void**)&d) != (f >= 0)) FAIL("contains '%s'", s);
        if (f >= 0 && *d != V[f]) FAIL("payload of '%s'", s);
        size_t best = 0; int bi = -1; for (size_t i = 0; i < n; i++) if (K[i][0] && !strncmp(K[i], s, strlen(K[i])) && strlen(K[i]) > best) { best = strlen(K[i]); bi = i; }
        d = NULL; size_t lp = trie_longest_prefix(t, s, (void**)&d);
        if (lp != best) FAIL("longest prefix of '%s' is %zu instead of %zu", s, lp, best);
        if (bi >= 0 && *d != V[bi]) FAIL("payload of longest prefix of '%s'", s);
        if (trie_longest_prefix(t, s, NULL) != best) FAIL("longest prefix without payload");
    }
    for (size_t i = 0; i < n; i++) if (strlen(K[i]) > TRIE_MAX_ITERATOR_DEPTH - 2) all = false; // iteration is for keys of limited length
    if (all)
    {
        TrieIterator it = trie_get_iterator(t);
        // sorted order by selection
        char done[MAXS] = {0};
        for (size_t k = 0; k < n; k++)
        {
            int m = -1; for (size_t i = 0; i < n; i++) if (!done[i] && (m < 0 || strcmp(K[i], K[m]) < 0)) m = i;
            done[m] = 1;
            int *p = iterator_get_next((Iterator*)&it);
            if (!p) FAIL("iteration ends after %zu of %zu", k, n);
            if (strcmp(trie_get_current_string(&it), K[m])) FAIL("iteration gives '%s' instead of '%s'", trie_get_current_string(&it), K[m]);
            if (*p != V[m]) FAIL("iteration: payload of '%s'", K[m]);
        }
        if (iterator_get_next((Iterator*)&it)) FAIL("iteration does not end");
        // starting over in the middle gives the first string again, and all of them
        it = trie_get_iterator(t);
        for (size_t k = n ? rnd(n + 1) : 0; k > 0; k--) iterator_get_next((Iterator*)&it);
        iterator_reset((Iterator*)&it);
        size_t seen = 0; char last[400] = ""; int *p;
        while ((p = iterator_get_next((Iterator*)&it)) != NULL)
        {
            const char *s = trie_get_current_string(&it); int f = find(s);
            if (f < 0 || *p != V[f] || (seen && strcmp(last, s) >= 0)) FAIL("iteration after a reset gives '%s'", s);
            strcpy(last, s); if (++seen > n) break;
        }
        if (seen != n) FAIL("iteration after a reset visits %zu of %zu", seen, n);
    }
}
int main(int argc, char **argv)
{
    h_init(argc, argv); int val = 1;
    static const char *alphas[] = {"ab", "a|!", "abc", "xyzXYZ+-*/^!|", "a", "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|" };
    while (h_more())
    {
        n = 0; dl = 0; desc[0] = 0; alpha = alphas[rnd(6)]; fan[0] = 0; if (chance(25)) { int L = 1 + rnd(4); for (int i = 0; i < L; i++) fan[i] = "ab"[rnd(2)]; fan[L] = 0; } maxlen = 1 + (int)dim2(6, 60);
        Trie t = trie_create(sizeof(int));
        int ops = 1 + (int)dim2(60, 200);
        for (int k = 0; k < ops; k++)
        {
            char s[400]; gen(s);
            if (chance(40) && n) strcpy(s, K[rnd(n)]);
            if (chance(k * 2 < ops ? 75 : 40) && n < MAXS - 1)
            {
                D(" +%s", s); CASE("%s", desc);
                int *p = trie_add_str(&t, s); int f = find(s);
                if ((p == NULL) != (f >= 0)) FAIL("adding '%s': duplicate not told correctly", s);
                if (p) { *p = val; K[n] = strdup(s); V[n++] = val++; }
            }
            else
            {
                if (chance(25)) { char e[200]; gen(e); strcat(s, e); }
                if (chance(4)) { static const char *odd[] = {" ", "\xC3\xA4", "}", "~", "\x7f", "\x01", "\xff", "\x80" "b"}; strcat(s, odd[rnd(8)]); }
                D(" -%s", s); CASE("%s", desc);
                trie_remove_str(&t, s); int f = find(s);
                if (f >= 0) { free(K[f]); n--; K[f] = K[n]; V[f] = V[n]; }
            }
            check(&t, chance(30) || k == ops - 1);
        }
        trie_destroy(&t); for (size_t i = 0; i < n; i++) free(K[i]);
    }
    return h_done("insert/remove histories over small alphabets, hashed by their text");
}
