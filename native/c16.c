// C16: random tables (cells, spans, borders, alignments, escape sequences), printed by the real code and compared
// cell by cell with the place computed from the column widths and row heights
#include "h.h"
#include "table/table.h"
#include "util/string_util.h"
extern void get_dimensions(Table *table, size_t *out_col_widths, size_t *out_row_heights) __attribute__((weak));
extern size_t console_strlen(const char *str) __attribute__((weak));
#define MC TABLE_MAX_COLS
#define MR 24
typedef struct { bool set, child; int sx, sy; char *text; int ha, va; bool oh, ov; bool bl; bool ba; bool early; } MCell;
static MCell m[MR + 1][MC]; static int C, R; static bool vl[MC + 1], hl[MR + 2]; static int dh[MC], dv[MC];
static char *log_; static size_t logn;
#define LOG(...) (logn += snprintf(log_ + logn, 600000 > logn ? 600000 - logn : 0, __VA_ARGS__))

static size_t dlen(const char *s, size_t n)   // display width: escape sequences count 0, UTF-8 continuation bytes count 0
{
    size_t r = 0;
    for (size_t i = 0; i < n;)
    {
        if (s[i] == 27) { while (i < n && s[i] != 'm') i++; if (i < n) i++; continue; }
        if (((unsigned char)s[i] & 0xC0) != 0x80) r++;
        i++;
    }
    return r;
}
// Cuts display columns [from, from+len) out of a line and drops escape sequences
static bool cut(const char *s, size_t n, size_t from, size_t len, char *out)
{
    size_t col = 0, o = 0;
    for (size_t i = 0; i < n;)
    {
        if (s[i] == 27) { while (i < n && s[i] != 'm') i++; if (i < n) i++; continue; }
        size_t k = 1; while (i + k < n && ((unsigned char)s[i + k] & 0xC0) == 0x80) k++;
        if (col >= from && col < from + len) { memcpy(out + o, s + i, k); o += k; }
        col++; i += k;
    }
    out[o] = 0; return col >= from + len;
}
static void plain(const char *s, size_t n, char *out) { size_t o = 0; for (size_t i = 0; i < n;) { if (s[i] == 27) { while (i < n && s[i] != 'm') i++; if (i < n) i++; continue; } out[o++] = s[i++]; } out[o] = 0; }
static int uniq;
static char *gen_text(void)
{
    static char b[6000]; size_t n = 0; int lines = chance(70) ? 1 : 1 + (int)dim2(4, 12); if (lines > 12) lines = 12;
    if (chance(6)) return strdup("");
    for (int l = 0; l < lines; l++)
    {
        if (l) b[n++] = '\n';
        if (chance(10)) continue;
        int k = rnd(4) ? 1 + rnd(8) : 1 + (int)dim2(24, 100); if (k > 100) k = 100;
        if (chance(20)) n += sprintf(b + n, "%s", chance(50) ? "\33[1;34m" : "\33[0m\33[1m");
        n += sprintf(b + n, "%d", uniq++ % 1000);
        for (int i = 0; i < k; i++) { b[n++] = i && i + 1 < k && chance(12) ? ' ' : "abcdefxyz%\\"[rnd(11)]; if (chance(4)) n += sprintf(b + n, "\33[0m"); }
        if (chance(20)) n += sprintf(b + n, "\33[0m");
    }
    b[n] = 0; return strdup(b);
}
static size_t lines_of(const char *s) { if (!s) return 0; size_t r = 1; for (; *s; s++) if (*s == '\n') r++; return r; }
static void line_of(const char *s, size_t k, const char **st, size_t *n)
{
    while (k) { if (*s == '\n') k--; s++; }
    *st = s; *n = 0; while (s[*n] && s[*n] != '\n') (*n)++;
}
static void strings(void)
{
    // string helpers on exact heap copies: no byte outside is read
    char b[64]; int n = rnd(20); for (int i = 0; i < n; i++) b[i] = "a \n\33m["[rnd(6)]; b[n] = 0;
    CASE("strings %d: %s", n, b);
    char *s = malloc(n + 1); memcpy(s, b, n + 1);
    size_t e = 0, k;
    for (k = 0; k < 5; k++)
    {
        char *st = (char *)1; size_t len = get_line_of_string(s, k, &st); size_t nl = lines_of(s);
        if (k < nl) { const char *rs; size_t rn; line_of(s, k, &rs, &rn); if (st != rs || len != rn) FAIL("get_line_of_string: line %zu", k); }
        else if (len != 0 || st != (char *)1) FAIL("get_line_of_string: line %zu of %zu reported", k, nl);
    }
    const char *p = s; while (*p == 27) { while (*p && *p != 'm') p++; if (*p) p++; }
    if (skip_ansi(s) != p) FAIL("skip_ansi");
    if (console_strlen)
    {
        for (const char *q = s;;) { while (*q == 27) { while (*q && *q != 'm') q++; if (*q) q++; } if (!*q || *q == '\n') break; e++; q++; }
        if (console_strlen(s) != e) FAIL("console_strlen");
    }
    memcpy(s, b, n + 1);
    char *t = strip(s); int i = 0, j = n; while (b[i] == ' ') i++; while (j > i && b[j - 1] == ' ') j--;
    if (t < s || t > s + n || strlen(t) != (size_t)(j - i) || memcmp(t, b + i, j - i)) FAIL("strip");
    free(s);
}
static void table(void)
{
    logn = 0; log_[0] = 0;
    memset(m, 0, sizeof m); memset(vl, 0, sizeof vl); memset(hl, 0, sizeof hl); memset(dh, 0, sizeof dh); memset(dv, 0, sizeof dv);
    C = 1 + (int)dim2(chance(20) ? 10 : 5, 10); if (C > 10) C = 10; R = 1 + (int)dim2(5, MR - 1); if (R > MR) R = MR; int maxc = 0, maxr = 1;
    Table *t = get_empty_table();
    bool seqmode = chance(30);
    // spans and cells
    bool fill = !seqmode && chance(20); // cells are added one after the other around the spans
    int nsp = seqmode ? 0 : rnd(4), early = seqmode || chance(70) ? 0 : rnd(6);
    for (int k = 0; k < early; k++)
    {
        int x = rnd(C), y = rnd(R); if (m[y][x].set) continue;
        char *s = gen_text(); m[y][x].text = s; m[y][x].set = m[y][x].early = true;
        LOG("early cell %d,%d [%s];", x, y, s);
        set_position(t, x, y); add_cell(t, s);
        if (maxc < x + 1) maxc = x + 1; if (maxr < y + 1) maxr = y + 1;
    }
    for (int k = 0; k < nsp; k++)
    {
        int x = rnd(C), y = rnd(R), sx = 1 + rnd(C - x), sy = 1 + rnd(R - y); bool clash = m[y][x].child || m[y][x].sx;
        if (clash || (sx == 1 && sy == 1)) continue;
        // a span that meets cells already set is truncated: first in width by those in its first row, then in height
        int tx = sx, ty = sy;
        for (int j = x + 1; j < x + tx; j++) if (m[y][j].set) tx = j - x;
        for (int i = y + 1; i < y + ty; i++) for (int j = x; j < x + tx; j++) if (m[i][j].set) ty = i - y;
        for (int i = y; i < y + ty; i++) for (int j = x; j < x + tx; j++) clash |= m[i][j].sx != 0; // the place of another span without text yet
        if (clash) continue;
        LOG("span %d,%d %dx%d;", x, y, sx, sy);
        set_position(t, x, y); set_span(t, sx, sy);
        for (int i = y; i < y + ty; i++) for (int j = x; j < x + tx; j++) if (i != y || j != x) { m[i][j].set = m[i][j].child = true; }
        m[y][x].sx = tx; m[y][x].sy = ty;
        if (maxc < x + sx) maxc = x + sx; if (maxr < y + ty) maxr = y + ty;
    }
    for (int y = 0; y < R; y++) for (int x = 0; x < C; x++) if (!m[y][x].sx && !m[y][x].child) m[y][x].sx = m[y][x].sy = 1;
    static const char *arr[MR * MC]; 
    if (seqmode && chance(30))
    {
        for (int i = 0; i < R * C; i++) { char *s = chance(10) ? NULL : gen_text(); arr[i] = s; m[i / C][i % C].text = s; m[i / C][i % C].set = true; }
        LOG("array %dx%d;", C, R); for (int i = 0; i < R * C; i++) LOG("[%s]", arr[i] ? arr[i] : "NULL");
        add_cells_from_array(t, C, R, arr); maxc = C; maxr = R + 1;
    }
    else for (int y = 0; y < R; y++)
    {
        if (fill && y == 0) { set_position(t, 0, 0); for (int x = 0; x < C && m[0][x].set; x++) set_position(t, x + 1, 0); LOG("fill;"); }
        if ((seqmode || fill) && y) { next_row(t); LOG("next_row;"); if (maxr < y + 1) maxr = y + 1; }
        if (!seqmode && !fill && chance(25)) { int a = rnd(3); set_position(t, 0, y); if (maxr < y + 1) maxr = y + 1; if (chance(50)) { override_horizontal_alignment_of_row(t, a); for (int j = 0; j < MC; j++) m[y][j].oh = true, m[y][j].ha = a; LOG("row %d halign %d;", y, a); } else { override_vertical_alignment_of_row(t, a); for (int j = 0; j < MC; j++) m[y][j].ov = true, m[y][j].va = a; LOG("row %d valign %d;", y, a); } }
        for (int x = 0; x < C; x++)
        {
            MCell *c = &m[y][x];
            if (c->child || c->early) continue;
            if (!seqmode && !fill && chance(15)) continue;
            if (!seqmode && !fill) { set_position(t, x, y); if (maxr < y + 1) maxr = y + 1; }
            if (chance(20)) { c->oh = true; c->ha = rnd(3); override_horizontal_alignment(t, c->ha); LOG("halign %d;", c->ha); }
            if (chance(20)) { c->ov = true; c->va = rnd(3); override_vertical_alignment(t, c->va); LOG("valign %d;", c->va); }
            if (chance(6)) { c->bl = true; override_left_border(t, 1 + rnd(2)); LOG("left;"); }
            if (chance(6)) { c->ba = true; override_above_border(t, 1 + rnd(2)); LOG("above;"); }
            char *s = gen_text(); c->text = s; c->set = true;
            LOG("cell %d,%d [%s]", x, y, s);
            switch (rnd(5))
            {
                case 0: add_empty_cell(t); LOG("empty;"); free(s); c->text = NULL; break;
                case 1: add_cell_gc(t, strdup(s)); LOG("gc;"); break;
                case 2: add_cell_fmt(t, "%s", s); LOG("fmt;"); break;
                case 3: add_cells(t, 1, s); LOG("cells;"); break;
                default: add_cell(t, s); LOG(";");
            }
            if (maxc < x + 1) maxc = x + 1;
        }
    }
    // default alignments and borders
    if (chance(50)) { TableHAlign h[MC]; TableVAlign v[MC]; int n = rnd(C + 1); bool uh = chance(80), uv = chance(80); for (int i = 0; i < n; i++) { h[i] = rnd(3); v[i] = rnd(3); if (uh) dh[i] = h[i]; if (uv) dv[i] = v[i]; LOG("col %d: %d %d;", i, dh[i], dv[i]); } set_default_alignments(t, n, uh ? h : NULL, uv ? v : NULL); }
    for (int i = 0; i < maxc; i++) if (chance(25)) { int s = rnd(3); set_vline(t, i, s); vl[i] = s; LOG("vline %d %d;", i, s); }
    for (int i = 0; i < maxr; i++) if (chance(25)) { int s = rnd(3); set_position(t, 0, i); set_hline(t, s); hl[i] = s; LOG("hline %d %d;", i, s); }
    if (chance(40)) { int s = rnd(3); set_all_vlines(t, s); for (int i = 1; i < maxc; i++) vl[i] = s; LOG("all vlines %d;", s); }
    if (chance(50) && maxc < MC)
    {
        if (chance(80)) { set_position(t, 0, maxr); maxr++; }
        int s = rnd(3); LOG("boxed %d (%d,%d);", s, maxc, maxr); make_boxed(t, s);
        vl[0] = s; hl[0] = s; vl[maxc] = s; hl[maxr - 1] = s; maxc++;
    }
    CASE("%s", log_);
    size_t w[MC + 1] = { 0 }, h[MR + 4] = { 0 };
    char *out; size_t on; FILE *f = open_memstream(&out, &on); fprint_table(t, f); fclose(f);
    if (get_dimensions && maxc) get_dimensions(t, w, h);
    if (maxc == 0 && on) FAIL("empty table prints something");
    // all lines have the same width
    static struct { char *s; size_t n; } ln[2000]; size_t nl = 0;
    for (char *p = out; p < out + on;) { char *e = strchr(p, '\n'); if (!e) FAIL("last line is not ended"); ln[nl].s = p; ln[nl].n = e - p; nl++; p = e + 1; if (nl >= 2000) break; }
    for (size_t i = 1; i < nl; i++) if (dlen(ln[i].s, ln[i].n) != dlen(ln[0].s, ln[0].n)) FAIL("line %zu has display width %zu, line 0 %zu:\n%s", i, dlen(ln[i].s, ln[i].n), dlen(ln[0].s, ln[0].n), out);
    // every text is at its place
    static char a[4000], b[4000];
    bool cb[MC + 1], rb[MR + 4];
    for (int x = 0; x < maxc; x++) { cb[x] = vl[x]; for (int y = 0; y < maxr; y++) if (y + 1 < maxr || h[y]) cb[x] |= m[y < MR ? y : MR][x].bl; }
    for (int y = 0; y < maxr; y++) { rb[y] = hl[y]; for (int x = 0; x < maxc; x++) if (x + 1 < maxc || w[x]) rb[y] |= m[y < MR ? y : MR][x].ba; }
    if (get_dimensions) for (int y = 0; y < R && y < maxr; y++) for (int x = 0; x < C && x < maxc; x++)
    {
        MCell *c = &m[y][x]; if (c->child) continue;
        size_t left = cb[x], top = rb[y], tw = 0, th = 0;
        for (int i = 0; i < x; i++) left += w[i] + cb[i];
        for (int i = 0; i < y; i++) top += h[i] + rb[i];
        for (int i = x; i < x + c->sx; i++) tw += w[i] + (i > x ? cb[i] : 0);
        for (int i = y; i < y + c->sy; i++) th += h[i] + (i > y ? rb[i] : 0);
        size_t tl = lines_of(c->text);
        if (tl > th) FAIL("cell %d,%d: %zu lines in height %zu\n%s", x, y, tl, th, out);
        int va = c->ov ? c->va : dv[x], ha = c->oh ? c->ha : dh[x];
        size_t t0 = va == V_ALIGN_TOP ? 0 : va == V_ALIGN_BOTTOM ? th - tl : (th - tl) / 2;
        for (size_t i = 0; i < th; i++)
        {
            const char *s = ""; size_t sn = 0;
            if (c->text && i >= t0 && i - t0 < tl) line_of(c->text, i - t0, &s, &sn);
            plain(s, sn, b); size_t d = strlen(b);
            if (d > tw) FAIL("cell %d,%d: column too narrow\n%s", x, y, out);
            size_t pad = ha == H_ALIGN_LEFT ? 0 : ha == H_ALIGN_RIGHT ? tw - d : (tw - d) / 2;
            memmove(b + pad, b, d); memset(b, ' ', pad); memset(b + pad + d, ' ', tw - pad - d); b[tw] = 0;
            if (top + i >= nl) FAIL("cell %d,%d: line missing\n%s", x, y, out);
            cut(ln[top + i].s, ln[top + i].n, left, tw, a);
            if (strcmp(a, b)) FAIL("cell %d,%d line %zu: '%s' printed, '%s' expected\n%s", x, y, i, a, b, out);
            // escape sequences of the text are printed as well
            if (sn != d && d) { static char full[6000]; memcpy(full, s, sn); full[sn] = 0; if (!memmem(ln[top + i].s, ln[top + i].n, full, sn)) FAIL("cell %d,%d: escape sequence lost", x, y); }
        }
    }
    // and nothing but borders and spaces else: number of letters and digits agrees
    size_t na = 0, nb = 0;
    for (int y = 0; y < R; y++) for (int x = 0; x < C; x++) if (m[y][x].text && !m[y][x].child) { for (char *p = m[y][x].text; *p;) { if (*p == 27) { while (*p != 'm') p++; p++; continue; } if (*p > ' ') na++; p++; } }
    for (char *p = out; *p;) { if (*p == 27) { while (*p && *p != 'm') p++; if (*p) p++; continue; } if (*p > ' ') nb++; p++; }
    if (na != nb) FAIL("%zu visible characters in the cells, %zu printed\n%s", na, nb, out);
    free(out); free_table(t);
    for (int y = 0; y < R; y++) for (int x = 0; x < C; x++) { free(m[y][x].text); m[y][x].text = NULL; }
}
int main(int argc, char **argv)
{
    h_init(argc, argv); log_ = malloc(700000);
    while (h_more()) { for (int i = 0; i < 20; i++) table(); for (int i = 0; i < 50; i++) strings(); }
    free(log_);
    return h_done("table layouts (cells, spans, alignments, borders) and strings of characters, newlines and escape sequences");
}
