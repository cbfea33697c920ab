// Tokenizer against an independent longest-match tokenizer
#include "h.h"
#include "engine/parsing/tokenizer.h"
#include "util/trie.h"
static bool dig(char c) { return c == '.' || (c >= '0' && c <= '9'); }
static bool let(char c) { return c == '_' || c == '[' || c == ']' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char names[40][80]; static size_t nn;
static char toks[1000][1000]; static size_t nt;
static void reference(const char *s)
{
    nt = 0; size_t i = 0;
    while (s[i])
    {
        size_t L = 1;
        if (let(s[i])) { while (let(s[i + L])) L++; }
        else
        {
            size_t best = 0;
            for (size_t k = 0; k < nn; k++) if (!strncmp(names[k], s + i, strlen(names[k])) && strlen(names[k]) > best) best = strlen(names[k]);
            if (best) L = best;
            else if (dig(s[i])) { while (dig(s[i + L])) L++; }
        }
        memcpy(toks[nt], s + i, L); toks[nt++][L] = 0; i += L;
    }
}
static void one(const Trie *t, const char *s)
{
    reference(s);
    char *in = strdup(s);
    Vector v = tokenize(in, t);
    memset(in, '#', strlen(s)); free(in); // tokens are copies
    size_t pos = 0;
    for (size_t i = 0; i < vec_count(&v); i++)
    {
        char *x = *(char**)vec_get(&v, i);
        if (!x[0]) FAIL("empty token %zu", i);
        if (strncmp(s + pos, x, strlen(x))) FAIL("token %zu '%s' is not the text at %zu", i, x, pos);
        pos += strlen(x);
        if (i >= nt || strcmp(x, toks[i])) FAIL("token %zu is '%s' instead of '%s'", i, x, i < nt ? toks[i] : "(none)");
        x[0] = 'Q';
    }
    if (pos != strlen(s) || vec_count(&v) != nt) FAIL("tokens do not cover the text");
    free_tokens(&v);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    static const char *nalpha[] = {"+-*/^!<=>&|", "*!", "+a-", "$%,:", "(a*"};
    static const char *talpha[] = {"+-*/^!<=>&|ab1. ", "*!a1. ", "+a-1 ", "$%,:x2", "(a*)_[]9."};
    while (h_more())
    {
        int A = rnd(5); nn = 0; Trie t = trie_create(0); bool null = chance(3);
        char nd[4000]; nd[0] = 0;
        int want = (int)dim2(9, 39);
        for (int k = 0; k < want && !null; k++)
        {
            int L = 1 + (int)dim2(4, 30); if (h_nwords && chance(10)) { strcpy(names[nn], h_words[rnd(h_nwords)]); L = -1; } for (int i = 0; i < L; i++) names[nn][i] = nalpha[A][rnd(strlen(nalpha[A]))]; if (L >= 0) names[nn][L] = 0;
            trie_add_str(&t, names[nn]); strcat(nd, names[nn]); strcat(nd, " "); nn++;
        }
        for (int r = 0; r < 60; r++)
        {
            char s[1000]; int L = (int)dim2(16, 300), n = 0;
            while (n < L)
            {
                if (h_nwords && chance(5) && n < 400) { strcpy(s + n, h_words[rnd(h_nwords)]); n += strlen(s + n); }
                else if (nn && chance(25)) { strcpy(s + n, names[rnd(nn)]); n += strlen(s + n); if (chance(20) && n) n--; }
                else s[n++] = chance(3) ? (chance(50) ? (char)(1 + rnd(255)) : "\t\xC3~}{@"[rnd(6)]) : talpha[A][rnd(strlen(talpha[A]))];
            }
            s[n] = 0;
            CASE("names: %s text: '%s'", nd, s);
            one(null ? NULL : &t, s);
        }
        trie_destroy(&t);
    }
    return h_done("(set of operator names, text) pairs, hashed");
}
