// C17 (first part): lines are delivered with exactly their characters
#include "h.h"
#include "util/console_util.h"
int main(int argc, char **argv)
{
    h_init(argc, argv); init_console_util();
    while (h_more())
    {
        static char b[400000]; size_t n = 0; int k = dim2(8, 60);
        for (int i = 0; i < k; i++) { int l = chance(20) ? 0 : (int)dim2(chance(10) ? 400 : 12, 3000); for (int j = 0; j < l; j++) b[n++] = chance(10) ? (char)(1 + rnd(255)) : "ab #;=\r\t q"[rnd(10)]; if (n && b[n-1] == '\n') n--; b[n++] = '\n'; }
        if (n && chance(50)) n--; 
        if (n > sizeof b - 4000) n = sizeof b - 4000; b[n] = 0; for (size_t i = 0; i < n; i++) if (b[i] == 0) b[i] = 'x';
        CASE("input <<%s>>", b);
        FILE *f = n ? fmemopen(b, n, "r") : fopen("/dev/null", "r");
        size_t p = 0; char *line = (char *)1;
        while (p < n)
        {
            char *e = memchr(b + p, '\n', n - p); size_t l = e ? (size_t)(e - (b + p)) : n - p;
            if (!ask_input(f, &line, NULL)) FAIL("end of input reported at byte %zu", p);
            if (strlen(line) != l || memcmp(line, b + p, l)) FAIL("line at byte %zu is delivered as '%s'", p, line);
            free(line); p += l + 1;
        }
        for (int i = 0; i < 2; i++) if (ask_input(f, &line, NULL)) FAIL("line '%s' after the end of the input", line);
        fclose(f);
    }
    unload_console_util();
    return h_done("texts of lines with and without final line end");
}
