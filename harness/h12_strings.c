/* C12: string building and string utilities. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "string_util.h"
#include "string_builder.h"
#include "vector.h"
#ifndef STEPS
#define STEPS 1
#define LONG
#else
#define LEN 1
#define SPLIT 1
#endif
static char of(const char *set)
{
    char c = (char)symx_byte("c");
    if (set) { bool in = false; for (int k = 0; set[k]; k++) in |= c == set[k]; symx_assume(in); }
    else symx_assume(c != 0);
    return c;
}
/* a text of its own block: nothing may be touched outside of it */
static char *text(unsigned max, const char *set, unsigned *len)
{
    unsigned n = symx_choose("len", max + 1);
    char *s = malloc(n + 1);
    for (unsigned i = 0; i < n; i++) s[i] = of(set);
    s[n] = 0;
    *len = n;
    return s;
}
static void chars(void)
{
    char c = (char)symx_byte("c");
    CHECK(is_space(c) == (c == ' '), "strings: is_space");
    CHECK(is_digit(c) == ((c >= '0' && c <= '9') || c == '.'), "strings: is_digit");
    CHECK(is_letter(c) == ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'), "strings: is_letter");
    char s[3] = {c, 0, 0};
    if (symx_choose("two", 2)) s[1] = of(NULL);
    CHECK(is_opening_parenthesis(s) == (s[1] == 0 && (c == '(' || c == '{')), "strings: is_opening_parenthesis");
    CHECK(is_closing_parenthesis(s) == (s[1] == 0 && (c == ')' || c == '}')), "strings: is_closing_parenthesis");
    CHECK(is_delimiter(s) == (s[1] == 0 && c == ','), "strings: is_delimiter");
}
static void prefix(void)
{
    unsigned n, k;
    char *a = text(LEN, NULL, &n), *b = text(LEN, NULL, &k);
    bool want = n <= k;
    for (unsigned i = 0; want && i < n; i++) if (a[i] != b[i]) want = false;
    bool is = begins_with(a, b);
    CHECK(is == want, "strings: begins_with");
    if (is) symx_reach("prefix"); else symx_reach("no prefix");
    free(a); free(b);
}
static void strip_(void)
{
    unsigned n;
    char *a = text(LEN + 1, NULL, &n), *c = malloc(n + 1);
    memcpy(c, a, n + 1);
    unsigned from = 0, to = n;
    while (from < n && c[from] == ' ') from++;
    while (to > from && c[to - 1] == ' ') to--;
    char *r = strip(a);
    CHECK(r >= a && r <= a + n, "strings: strip leaves the text");
    for (unsigned i = from; i < to; i++) CHECK(r[i - from] == c[i], "strings: strip changes the text");
    CHECK(r[to - from] == 0, "strings: strip leaves something behind");
    if (from > 0 && to < n && from < to) symx_reach("stripped");
    free(a); free(c);
}
static void lines(void)
{
    unsigned n;
    char *a = text(LEN + 1, "\nab", &n);
    unsigned idx = symx_choose("line", LEN + 3);
    /* reference: cut at every line break */
    unsigned start = 0, cur = 0;
    bool have = true;
    while (cur < idx) { while (start < n && a[start] != '\n') start++; if (start == n) { have = false; break; } start++; cur++; }
    char *out = (char *)1;
    size_t len = get_line_of_string(a, idx, &out);
    if (!have) { CHECK(out == NULL && len == 0, "strings: a line that does not exist"); symx_reach("no such line"); }
    else
    {
        unsigned end = start;
        while (end < n && a[end] != '\n') end++;
        CHECK(out == a + start, "strings: line begins at a wrong place");
        CHECK(len == end - start, "strings: line has a wrong length");
        if (idx > 1 && len > 1) symx_reach("line");
    }
    free(a);
    CHECK(get_line_of_string(NULL, idx, &out) == 0 && out == NULL, "strings: line of no text");
}
static void ansi(void)
{
    unsigned n;
    char *a = text(LEN + 1, "\033m[x", &n);
    unsigned p = 0;
    while (p < n && a[p] == '\033') { while (p < n && a[p] != 'm') p++; if (p < n) p++; }
    CHECK(skip_ansi(a) == a + p, "strings: skip_ansi stops at a wrong place");
    if (p > 3 && p < n) symx_reach("skipped");
    free(a);
}
static void split(void)
{
    static const char *const dels[][3] = {{";", ";", ";"}, {"ab", "a", "b"}, {"aa", "a", "aa"}, {" f ", ";", " f "}, {"b", "ab", ";"}};
    const char *const *d = dels[symx_choose("delims", 5)];
    unsigned k = symx_choose("count", 4), n;
    char *a = text(SPLIT, ";ab f", &n), *c = malloc(n + 1), *out[4];
    memcpy(c, a, n + 1);
    size_t r = k == 0 ? str_split(a, out, 0) : k == 1 ? str_split(a, out, 1, d[0]) : k == 2 ? str_split(a, out, 2, d[0], d[1]) : str_split(a, out, 3, d[0], d[1], d[2]);
    unsigned pos = 0, parts = 1;
    for (unsigned i = 0; i <= k; i++)
    {
        /* the next delimiter, if any */
        unsigned end = n, dl = 0;
        bool found = false;
        if (i < k)
        {
            dl = strlen(d[i]);
            for (unsigned j = pos; j + dl <= n && !found; j++)
            {
                unsigned q = 0;
                while (q < dl && c[j + q] == d[i][q]) q++;
                if (q == dl) { found = true; end = j; }
            }
        }
        CHECK(parts <= r, "strings: str_split finds too few parts");
        CHECK(out[parts - 1] == a + pos, "strings: part begins at a wrong place");
        for (unsigned j = pos; j < end; j++) CHECK(a[j] == c[j], "strings: str_split changes a part");
        CHECK(a[end] == 0, "strings: part does not end at the delimiter");
        if (!found) break;
        parts++;
        pos = end + dl;
    }
    CHECK(r == parts, "strings: str_split counts wrong");
    if (r > 2) symx_reach("split");
    free(a); free(c);
}
static char model[200]; static unsigned ml;
static void builder(void)
{
    unsigned n;
    uint64_t live = symx_live_heap();
    StringBuilder b;
    if (symx_choose("from", 2)) { char *h = text(2, NULL, &n); memcpy(model, h, n); ml = n; b = strbuilder_from_heapstring(h); }
    else { ml = 0; b = strbuilder_create(symx_choose("start", 3)); }
    for (int s = 0; s < STEPS; s++)
    {
        switch (symx_choose("append", 6))
        {
        case 0: { char *t = text(3, NULL, &n); strbuilder_append(&b, "%s", t); memcpy(model + ml, t, n); ml += n; free(t); break; }
        case 1: { char c = of(NULL); strbuilder_append_char(&b, c); model[ml++] = c; break; }
        case 2: { char *t = text(1, NULL, &n); strbuilder_append(&b, "<%s>%d", t, 47); model[ml++] = '<'; memcpy(model + ml, t, n); ml += n; memcpy(model + ml, ">47", 3); ml += 3; free(t); break; }
        case 3: { static const char *const w[] = {"", "a", "abcdefgh", "0123456789012345678901234567890"}; const char *t = w[symx_choose("word", 4)]; strbuilder_append(&b, t); memcpy(model + ml, t, strlen(t)); ml += strlen(t); break; }
        case 4: strbuilder_clear(&b); ml = 0; break;
        default: strbuilder_append(&b, "%-.10g", 2.5); memcpy(model + ml, "2.5", 3); ml += 3; break;
        }
        const char *str = strbuilder_to_str(&b);
        for (unsigned i = 0; i < ml; i++) CHECK(str[i] == model[i], "strings: built text is wrong");
        CHECK(str[ml] == 0, "strings: built text does not end");
        CHECK(vec_count(&b) == ml + 1, "strings: built text has a wrong length");
        if (ml > 20) symx_reach("long");
    }
    vec_destroy(&b);
    CHECK(symx_live_heap() == live, "strings: memory is not released");
}
void symx_main(void)
{
    symx_budget(3000000);
#if MODE == 0
    switch (symx_choose("function", 6))
    {
    case 0: chars(); break;
    case 1: prefix(); break;
    case 2: strip_(); break;
    case 3: lines(); break;
    case 4: ansi(); break;
    default: split();
    }
#else
    builder();
#endif
}
