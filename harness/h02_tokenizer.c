/* C02: tokens are exactly the pieces of the text: letters, numbers, longest keyword, single characters. */
#if MODE == 3
#define RT_MAX 4200
#endif
#include "ref_token.h"
#include "commands.h"
#include "arith_context.h"
#include "context.h"
static char kw[4][4];
static char of(const char *set)
{
    char c = (char)symx_byte("c");
    bool in = false;
    for (int i = 0; set[i]; i++) in |= c == set[i];
    symx_assume(in);
    return c;
}
static char text[64 + RT_MAX];
void symx_main(void)
{
    symx_budget(3000000);
#if MODE == 0
    /* any keywords, any text over a small alphabet */
    Trie t = trie_create(0);
    int n = symx_choose("keywords", 3);
    for (int i = 0; i < n; i++)
    {
        int l = 1 + symx_choose("kwlen", KWLEN);
        for (int k = 0; k < l; k++) kw[i][k] = of("1a+-");
        kw[i][l] = 0;
        rt_kw[rt_nkw++] = kw[i];
        trie_add_str(&t, kw[i]);
    }
    int len = symx_choose("len", LEN + 1);
    for (int i = 0; i < len; i++) text[i] = of("1a+-. ");
    text[len] = 0;
    rt_check(text, n == 0 && symx_choose("null", 2) ? NULL : &t);
    if (n == 2 && rt_n >= 3) symx_reach("tokens");
    trie_destroy(&t);
#else
    /* the calculator's own operators; any bytes */
    ParsingContext *ctx;
    init_arith_ctx();
    ctx = g_ctx;
    LinkedListIterator it = list_get_iterator(&ctx->op_list);
    Operator *op;
    while ((op = iterator_get_next((Iterator *)&it)) != NULL)
    {
        bool letters = rt_letter(op->name[0]);
        if (!letters) rt_kw[rt_nkw++] = op->name;     /* names beginning with a letter are never looked for */
    }
#if MODE == 1
    int len = symx_choose("len", LEN + 1);
    for (int i = 0; i < len; i++) { text[i] = (char)symx_byte("b"); symx_assume(text[i] != 0); }
#elif MODE == 3
    /* a long run */
    static const int sizes[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025};
    int len = 0, sn = 0;
    while (sn < 27 && sizes[sn] <= SIZE) sn++;
    int n = sizes[symx_choose("size", sn)];
    static const char *const run[] = {"a", "1", " ", "+", "x1 +5.2", "3sin", "a ", "mod", "[x]", ","};
    const char *piece = run[symx_choose("run", 10)];
    if (n >= 100) symx_reach("large");
    text[len++] = of("a1. +!");
    for (int i = 0; i < n; i++) { size_t pl = strlen(piece); if (len + pl > RT_MAX) break; memcpy(text + len, piece, pl); len += pl; }
    text[len++] = of("a1. +!"); text[len++] = of("a1. +!");
#else
    /* more tokens than the initial capacity */
    int len = 0, rep = 3 + symx_choose("rep", 3);
    for (int i = 0; i < rep; i++) { memcpy(text + len, "x1 +5.2", 7); len += 7; }
    for (int i = 0; i < 3; i++) { int at = symx_choose("at", 4); text[(i * 9 + at) % len] = of("a1. +!"); }
#endif
    text[len] = 0;
    rt_check(text, &ctx->keywords_trie);
    if (rt_n >= 2) symx_reach("tokens");
    unload_arith_ctx();
#endif
}
