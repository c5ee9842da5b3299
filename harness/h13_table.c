/* C13: rendered tables. The screen must be explained by some column widths and row heights. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "table.h"
#define NC 4
#define NR 5
#define SCR_W 64
#define SCR_H 40
typedef struct { int r, c, sx, sy; int h, v; int nlines; const char *line[4]; int len[4], vis[4]; } Cell;
static Cell cells[20]; static int ncells;
static int owner[NR][NC];                   /* 0: free, otherwise cell + 1 */
static int ncols, nrows;
static int vdef[NC + 1], hdef[NR]; static int vover[NC + 1], hover[NR];
static int defh[NC], defv[NC];
static int cr, cc;                          /* cursor */
static Table *t;
/* screen: 0 nothing, otherwise the byte; 1 for a border character */
static uint8_t scr[SCR_H][SCR_W]; static int width[SCR_H], height;
#ifndef LINES
#define CHOICES 5
#else
#define CHOICES 7
/* C28: the arms of the border character there: 1 up, 2 right, 4 down, 8 left; 16: double */
static uint8_t arms[SCR_H][SCR_W];
static uint8_t arms_of(unsigned char a, unsigned char b)
{
    static const struct { unsigned char a, b; uint8_t arms; } tab[] = {{0x94, 0x8C, 6}, {0x94, 0xAC, 14}, {0x94, 0x90, 12}, {0x94, 0x9C, 7}, {0x94, 0xBC, 15}, {0x94, 0xA4, 13}, {0x94, 0x94, 3}, {0x94, 0xB4, 11}, {0x94, 0x98, 9}, {0x94, 0x80, 10}, {0x94, 0x82, 5},
        {0x95, 0x94, 22}, {0x95, 0xA6, 30}, {0x95, 0x97, 28}, {0x95, 0xA0, 23}, {0x95, 0xAC, 31}, {0x95, 0xA3, 29}, {0x95, 0x9A, 19}, {0x95, 0xA9, 27}, {0x95, 0x9D, 25}, {0x95, 0x90, 26}, {0x95, 0x91, 21}};
    for (unsigned i = 0; i < sizeof tab / sizeof *tab; i++) if (tab[i].a == a && tab[i].b == b) return tab[i].arms;
    return 0;
}
static int vov[NR][NC + 1], hov[NR][NC + 1]; static bool vis_over[NR][NC + 1], his_over[NR][NC + 1];
#endif
static void scan(void)
{
    const unsigned char *p = (const unsigned char *)symx_stdout();
    size_t n = symx_stdout_len();
    int x = 0;
    height = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (p[i] == '\n') { width[height++] = x; x = 0; if (height == SCR_H) symx_discard(); continue; }
        if (p[i] == 27) { while (i < n && p[i] != 'm') i++; continue; }
        if (x == SCR_W) symx_discard();
#ifdef LINES
        arms[height][x] = 0;
#endif
        if (p[i] == 0xE2)
        {
            CHECK(i + 2 < n && (p[i + 1] == 0x94 || p[i + 1] == 0x95), "table: broken border character");
#ifdef LINES
            arms[height][x] = arms_of(p[i + 1], p[i + 2]);
#endif
            scr[height][x++] = 1;
            i += 2;
            continue;
        }
        scr[height][x++] = p[i];
    }
    CHECK(x == 0, "table: last line does not end");
}
static int w[NC], h[NR];
static bool vsep(int c) { return vdef[c] || vover[c]; }
static bool hsep(int r) { return hdef[r] || hover[r]; }
/* position of a column's text, size of a span */
static int col_at(int c) { int x = 0; for (int i = 0; i <= c; i++) { if (vsep(i)) x++; if (i < c) x += w[i]; } return x; }
static int row_at(int r) { int y = 0; for (int i = 0; i <= r; i++) { if (hsep(i)) y++; if (i < r) y += h[i]; } return y; }
static bool fits(int i)
{
    const Cell *k = &cells[i];
    int tw = 0, th = 0;
    for (int c = 0; c < k->sx; c++) tw += w[k->c + c] + (c && vsep(k->c + c));
    for (int r = 0; r < k->sy; r++) th += h[k->r + r] + (r && hsep(k->r + r));
    int x0 = col_at(k->c), y0 = row_at(k->r);
    if (k->nlines > th) return false;
    int first = k->v == V_ALIGN_TOP ? 0 : k->v == V_ALIGN_BOTTOM ? th - k->nlines : (th - k->nlines) / 2;
    for (int y = 0; y < th; y++)
    {
        int l = y - first, from = tw, n = 0;
        if (l >= 0 && l < k->nlines)
        {
            n = k->vis[l];
            if (n > tw) return false;
            from = k->h == H_ALIGN_LEFT ? 0 : k->h == H_ALIGN_RIGHT ? tw - n : (tw - n) / 2;
        }
        int q = 0;
        for (int x = 0; x < tw; x++)
        {
            uint8_t want = ' ';
            if (x >= from && x < from + n)
            {
                while (k->line[l][q] == 27) { while (k->line[l][q] != 'm') q++; q++; }
                want = (uint8_t)k->line[l][q++];
            }
            if (scr[y0 + y][x0 + x] != want) return false;
        }
    }
    return true;
}
#ifdef LINES
static const Cell *cell_at(int r, int c) { return c < NC && owner[r][c] ? &cells[owner[r][c] - 1] : NULL; }
/* the line asked for on the left of / above a cell; none inside of a cell that spans and in an empty last column or row */
static int vstyle(int r, int c)
{
    const Cell *k = cell_at(r, c);
    if ((k && k->c < c) || (r == nrows - 1 && h[r] == 0)) return BORDER_NONE;
    return vis_over[r][c] ? vov[r][c] : vdef[c];
}
static int hstyle(int r, int c)
{
    const Cell *k = cell_at(r, c);
    if ((k && k->r < r) || (c == ncols - 1 && w[c] == 0)) return BORDER_NONE;
    return his_over[r][c] ? hov[r][c] : hdef[r];
}
static bool drawn(int y, int x, uint8_t shape, int style)
{
    if (style == BORDER_NONE || shape == 0) return scr[y][x] == ' ';
    return scr[y][x] == 1 && arms[y][x] == (shape | (style == BORDER_DOUBLE ? 16 : 0));
}
static bool lines_fit(void)
{
    for (int r = 0; r < nrows; r++)
        for (int c = 0; c < ncols; c++)
        {
            const Cell *k = cell_at(r, c);
            int x = col_at(c), y = row_at(r);
            if (hsep(r) && !(k && k->r < r)) for (int i = 0; i < w[c]; i++) if (!drawn(y - 1, x + i, 10, hstyle(r, c))) return false;
            if (vsep(c) && !(k && k->c < c)) for (int i = 0; i < h[r]; i++) if (!drawn(y + i, x - 1, 5, vstyle(r, c))) return false;
            if (!hsep(r) || !vsep(c) || (k && k->r < r && k->c < c)) continue;
            int s[4], count = 0, twice = 0; uint8_t shape = 0;
            s[0] = r ? vstyle(r - 1, c) : BORDER_NONE; s[1] = hstyle(r, c); s[2] = vstyle(r, c); s[3] = c ? hstyle(r, c - 1) : BORDER_NONE;
            for (int i = 0; i < 4; i++) if (s[i] != BORDER_NONE) { count++; shape |= 1 << i; twice += s[i] == BORDER_DOUBLE; }
            if (!drawn(y - 1, x - 1, count > 1 ? shape : 0, 2 * twice > count ? BORDER_DOUBLE : BORDER_SINGLE)) return false;
        }
    return true;
}
#endif
static bool explained(void)
{
    for (int i = 0; i < ncells; i++) if (!fits(i)) return false;
#ifdef LINES
    return lines_fit();
#endif
    return true;
}
static void guess(bool hor)
{
    int n = hor ? ncols : nrows, *s = hor ? w : h;
    for (int i = 0; i < n; i++) s[i] = 0;
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < ncells; i++)
        {
            const Cell *k = &cells[i];
            int from = hor ? k->c : k->r, span = hor ? k->sx : k->sy, need = 0;
            if ((span == 1) != (pass == 0)) continue;
            if (hor) for (int l = 0; l < k->nlines; l++) { if (k->vis[l] > need) need = k->vis[l]; }
            else need = k->nlines;
            for (int j = 0; j < span; j++) { need -= s[from + j]; if (j && (hor ? vsep(from + j) : hsep(from + j))) need--; }
            if (need <= 0) continue;
            for (int j = 0; j < span; j++) s[from + j] += need / span + (j < need % span);
        }
}
static bool search_h(int r, int left)
{
    if (r == nrows) return left == 0 && explained();
    for (h[r] = 0; h[r] <= left; h[r]++) { int keep = h[r]; if (search_h(r + 1, left - keep)) return true; h[r] = keep; }
    return false;
}
static bool search_w(int c, int left, int rows)
{
    if (c == ncols) return left == 0 && search_h(0, rows);
    for (w[c] = 0; w[c] <= left; w[c]++) { int keep = w[c]; if (search_w(c + 1, left - keep, rows)) return true; w[c] = keep; }
    return false;
}
static void check_screen(void)
{
    symx_output_reset();
    print_table(t);
    if (ncols == 0) { CHECK(symx_stdout_len() == 0, "table: output without columns"); return; }
    scan();
    for (int y = 1; y < height; y++) CHECK(width[y] == width[0], "table: lines have different widths");
    guess(true);
    guess(false);
    int sum = 0, rows = 0, seps = 0, hseps = 0;
    for (int c = 0; c < ncols; c++) { sum += w[c]; seps += vsep(c); }
    for (int r = 0; r < nrows; r++) { rows += h[r]; hseps += hsep(r); }
    if (height) CHECK(width[0] >= seps, "table: too narrow");
    CHECK(height >= hseps, "table: too few lines");
    bool ok = false;
    if ((height == 0 || sum + seps == width[0]) && rows + hseps == height) ok = explained();
    if (!ok && height) ok = search_w(0, width[0] - seps, height - hseps);
#ifdef LINES
    CHECK(ok, "table: a line is missing, misplaced or joined wrongly (or a text is)");
#endif
    CHECK(ok, "table: a text is missing, clipped, repeated or out of place");
    if (height > 2) symx_reach("printed");
}
/* ---- building, in the table and in the model */
static void model_add(const char *text)
{
    int id = owner[cr][cc];
    Cell *k;
    if (id == 0) { k = &cells[ncells++]; owner[cr][cc] = ncells; k->r = cr; k->c = cc; k->sx = k->sy = 1; k->h = defh[cc]; k->v = defv[cc]; }
    else k = &cells[id - 1];
    k->nlines = 0;
    if (text)
        for (const char *p = text; ; p++)
        {
            int l = k->nlines++;
            k->line[l] = p;
            k->len[l] = k->vis[l] = 0;
            while (*p && *p != '\n')
            {
                if (*p == 27) { while (*p != 'm') { p++; k->len[l]++; } }
                else k->vis[l]++;
                p++; k->len[l]++;
            }
            if (!*p) break;
        }
    if (cc >= ncols) ncols = cc + 1;
    while (cc < NC && owner[cr][cc]) cc++;
}
static void model_row(void) { cc = 0; cr++; if (cr >= nrows) nrows = cr + 1; else while (cc < NC && owner[cr][cc]) cc++; }
static Cell *model_current(void)
{
    if (owner[cr][cc] == 0) { Cell *k = &cells[ncells++]; owner[cr][cc] = ncells; k->r = cr; k->c = cc; k->sx = k->sy = 1; k->h = defh[cc]; k->v = defv[cc]; k->nlines = 0; }
    return &cells[owner[cr][cc] - 1];
}
static void span(int sx, int sy)
{
    set_span(t, sx, sy);
    Cell *k = model_current();
    int id = owner[cr][cc];
    for (int i = 0; i < sy; i++)
    {
        int n = i == 0 ? 1 : 0;
        while (n < sx && cc + n < NC && owner[cr + i][cc + n] == 0) n++;
        if (n < sx) { if (i) { sy = i; break; } sx = n; }
        for (int j = 0; j < sx; j++) owner[cr + i][cc + j] = id;
        if (i + 1 < sy && cr + i + 1 >= nrows) nrows = cr + i + 2;
    }
    k->sx = sx; k->sy = sy;
    if (cc + sx > ncols) ncols = cc + sx;
    if (sx > 1 || sy > 1) symx_reach("span");
}
static char text[20][40]; static int ntext;
static char any(void) { return (char)symx_range("character", 'A', 'z'); }
static void add(int kind)
{
    char *s = text[ntext++];
    int n = 0;
    if (kind == 0) { add_empty_cell(t); model_add(NULL); return; }
    if (kind == 1) s[n++] = any();
    else if (kind == 2) { s[n++] = any(); s[n++] = any(); s[n++] = any(); }
    else if (kind == 3) { s[n++] = any(); s[n++] = '\n'; s[n++] = any(); s[n++] = any(); }
    else if (kind == 4) { memcpy(s, "\033[1;31m", 7); n = 7; s[n++] = any(); s[n++] = any(); memcpy(s + n, "\033[0m", 4); n += 4; }
    else if (kind == 5) { s[n++] = any(); s[n++] = '\n'; s[n++] = '\n'; memcpy(s + n, "\033[33m", 5); n += 5; s[n++] = any(); s[n++] = '\n'; memcpy(s + n, "\033[0m", 4); n += 4; s[n++] = any(); }
    else if (kind == 6) { for (int i = 0; i < 6; i++) s[n++] = any(); }
    else { s[n++] = ' '; s[n++] = any(); s[n++] = ' '; }
    s[n] = 0;
    if (kind == 7) add_cell_fmt(t, " %c ", s[1]);
    else if (kind == 2) { char *g = malloc(8); strcpy(g, s); add_cell_gc(t, g); }
    else add_cell(t, s);
    model_add(s);
}
static void row(void) { next_row(t); model_row(); }
static void vline(int c, int style) { set_vline(t, c, style); vdef[c] = style; if (c >= ncols) ncols = c + 1; }
static void over_left(int style)
{
    override_left_border(t, style);
    if (style != BORDER_NONE) vover[cc] = 1;
#ifdef LINES
    vis_over[cr][cc] = true; vov[cr][cc] = style;
#endif
}
static void over_above(int style)
{
    override_above_border(t, style);
    if (style != BORDER_NONE) hover[cr] = 1;
#ifdef LINES
    his_over[cr][cc] = true; hov[cr][cc] = style;
#endif
}
static void hline(int style) { set_hline(t, style); hdef[cr] = style; }
static void box(int style)
{
    make_boxed(t, style);
    int n = ncols;
    vdef[0] = vdef[n] = style;
    ncols = n + 1;
    hdef[0] = hdef[nrows - 1] = style;
    cr = nrows - 1; cc = n;
}
void symx_main(void)
{
    symx_budget(30000000);
    uint64_t live = symx_live_heap();
    t = get_empty_table();
    nrows = 1;
#if MODE == 0
    /* alignment: two columns, two rows */
    static const int kinds[] = {1, 5, 4, 2};
    TableHAlign ha[2]; TableVAlign va[2];
    ha[0] = defh[0] = symx_choose("horizontal", 3); ha[1] = defh[1] = symx_choose("horizontal", 3);
    va[0] = defv[0] = symx_choose("vertical", 3); va[1] = defv[1] = symx_choose("vertical", 3);
    set_default_alignments(t, 2, ha, va);
    int lines = symx_choose("lines", 2);
    for (int i = 0; i < 4; i++)
    {
        if (i == 2) { row(); if (lines) hline(BORDER_SINGLE); }
        if (i == 1 && symx_choose("override h", 2)) { int a = symx_choose("align", 3); override_horizontal_alignment(t, a); model_current()->h = a; }
        if (i == 2 && symx_choose("override v", 2)) { int a = symx_choose("align", 3); override_vertical_alignment(t, a); model_current()->v = a; }
        add(kinds[symx_choose("text", KINDS)]);
    }
    if (lines) { vline(1, BORDER_DOUBLE); }
#elif MODE == 1
    /* spans: three columns, three rows */
    static const int kinds[] = {1, 5, 6, 0};
    unsigned border = symx_choose("border", 3);
    int spans = SPANS;
    for (int r = 0; r < 3; r++)
    {
        if (r) row();
        if (border == 1) hline(BORDER_SINGLE);
        while (cc < 3)
        {
            if (spans > 0 && (r < 2 || cc < 2) && symx_choose("span", 2))
            {
                spans--;
                int sx = 1 + symx_choose("columns", 3 - cc);
                int sy = 1 + symx_choose("rows", 3 - r);
                /* default alignment varies with the cell that spans */
                if (ALIGN) { int a = symx_choose("align", 3); override_horizontal_alignment(t, a); model_current()->h = a; int b = symx_choose("valign", 3); override_vertical_alignment(t, b); model_current()->v = b; }
                span(sx, sy);
                add(kinds[symx_choose("text", KINDS)]);
            }
            else add(kinds[(r * 3 + cc) % 2]);
        }
    }
    if (border) { vline(1, BORDER_SINGLE); vline(2, BORDER_DOUBLE); }
    if (border == 2) { row(); box(BORDER_SINGLE); }
#elif MODE == 3
    /* one text with lines of any lengths, next to and above others */
    TableHAlign ha[1]; TableVAlign va[1];
    ha[0] = defh[0] = symx_choose("horizontal", 3);
    va[0] = defv[0] = symx_choose("vertical", 3);
    set_default_alignments(t, 1, ha, va);
    vline(1, BORDER_SINGLE);
    char *s = text[ntext++];
    int len0 = 0;
    unsigned lines = 1 + symx_choose("lines", TEXTLINES), above = symx_choose("above", 2);
    for (unsigned l = 0; l < lines; l++)
    {
        unsigned len = symx_choose("length", 4);
        if (l) s[len0++] = '\n';
        if (len == 2) { memcpy(s + len0, "\033[33m", 5); len0 += 5; }
        while (len--) s[len0++] = any();
    }
    s[len0] = 0;
    if (above) { add(2); add(3); row(); }
    add_cell(t, s);
    model_add(s);
    add(3);
    if (!above) { row(); add(1); add(2); }
#else
    /* borders: defaults and overrides, two columns and rows, optionally a trailing row and box */
    static const int kinds[] = {7, 3, 0};
    int overrides = 0;
    for (int i = 0; i < 4; i++)
    {
        if (i == 2) row();
        if (i == 0 || i == 2) { int s = symx_choose("hline", 4); hline(s % 3); if (s == 3) hline(BORDER_SINGLE); }
        unsigned o = overrides < OVERRIDES ? symx_choose("override", CHOICES) : 0;
        overrides += o != 0;
        if (o == 1 || o == 2) { over_left(o); }
        if (o == 3 || o == 4) { over_above(o - 2); }
        if (o == 5) over_left(BORDER_NONE);
        if (o == 6) over_above(BORDER_NONE);
        add(kinds[i < 2 ? symx_choose("text", KINDS) : 0]);
    }
    vline(1, symx_choose("vline", 3));
    vline(0, symx_choose("vline", 2));
    if (symx_choose("trailing", 2)) { row(); if (symx_choose("box", 2)) box(BORDER_DOUBLE); }
#endif
    check_screen();
    /* printing again gives the same */
    static char first[2000];
    size_t n = symx_stdout_len();
    if (n < sizeof first)
    {
        memcpy(first, symx_stdout(), n);
        symx_output_reset();
        print_table(t);
        CHECK(symx_stdout_len() == n && memcmp(first, symx_stdout(), n) == 0, "table: printed differently the second time");
    }
    free_table(t);
    CHECK(symx_live_heap() == live, "table: memory not released");
}
