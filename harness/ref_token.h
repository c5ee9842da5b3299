/* Reference tokenizer. */
#ifndef REF_TOKEN_H
#define REF_TOKEN_H
#include "symx.h"
#include <string.h>
#include "tokenizer.h"
#include "vector.h"
static const char *rt_kw[96]; static int rt_nkw;      /* the keywords, as a plain list */
#ifndef RT_MAX
#define RT_MAX 128
#endif
static size_t rt_start[RT_MAX], rt_len[RT_MAX]; static size_t rt_n;
static bool rt_letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'; }
static bool rt_digit(char c) { return (c >= '0' && c <= '9') || c == '.'; }
static size_t rt_keyword(const char *s)
{
    size_t best = 0;
    for (int i = 0; i < rt_nkw; i++)
    {
        size_t l = 0;
        while (rt_kw[i][l] && s[l] == rt_kw[i][l]) l++;
        if (!rt_kw[i][l] && l > best) best = l;
    }
    return best;
}
static void rt_tokenize(const char *s)
{
    size_t i = 0;
    rt_n = 0;
    while (s[i])
    {
        size_t k = 0, j = i;
        if (rt_letter(s[i])) { while (rt_letter(s[j])) j++; }
        else if ((k = rt_keyword(s + i)) > 0) j = i + k;
        else if (rt_digit(s[i])) { do j++; while (rt_digit(s[j]) && !rt_keyword(s + j)); }
        else j++;
        rt_start[rt_n] = i;
        rt_len[rt_n++] = j - i;
        i = j;
    }
}
static void rt_check(const char *s, const Trie *keywords)
{
    uint64_t live = symx_live_heap();
    Vector v = tokenize(s, keywords);
    rt_tokenize(s);
    CHECK(vec_count(&v) == rt_n, "tokenizer: wrong number of tokens");
    for (size_t i = 0; i < rt_n; i++)
    {
        const char *t = *(const char **)vec_get(&v, i);
        for (size_t k = 0; k < rt_len[i]; k++) CHECK(t[k] == s[rt_start[i] + k], "tokenizer: token differs from the text");
        CHECK(t[rt_len[i]] == 0, "tokenizer: token is too long");
    }
    symx_observe(rt_n);
    free_tokens(&v);
    CHECK(symx_live_heap() == live, "tokenizer: memory is not released");
}
#endif
