/* C10: the trie is a map from names to values; longest prefix; iteration. Model: a plain list of names. */
#include "symx.h"
#include <string.h>
#include "trie.h"
#define MAXN 8
static char names[MAXN][NAME + 1]; static bool present[MAXN]; static uint64_t val[MAXN]; static int nn; static size_t count;
static bool same(const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } }
static int find(const char *s) { for (int i = 0; i < nn; i++) if (same(names[i], s)) return i; return -1; }
static size_t len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
/* a name over the legal alphabet; symbolic bytes, length chosen */
static void name(char *s, int maxlen, bool legal)
{
    int l = symx_choose("len", maxlen + 1);
    for (int i = 0; i < l; i++)
    {
#ifdef ALPH
                s[i] = ALPH[symx_choose("c", sizeof(ALPH) - 1)];
#else
        s[i] = (char)symx_byte("c");
        if (legal) symx_assume(s[i] >= TRIE_START_CHAR && s[i] < TRIE_END_CHAR);
        else symx_assume(s[i] != 0);
#endif
    }
    s[l] = 0;
}
static uint64_t ctr;
static void one(Trie *t)
{
    char s[NAME + 1];
    if (symx_range("op", 0, 2) < 2)
    {
        name(s, NAME, true);
        int i = find(s);
        uint64_t *p = trie_add_str(t, s);
        if (i >= 0 && present[i]) CHECK(p == NULL, "trie: adding a present name yields a second entry");
        else
        {
            CHECK(p != NULL, "trie: adding an absent name fails");
            uint64_t v = symx_u64("value");
            *p = v;
            if (i < 0) { i = nn++; memcpy(names[i], s, NAME + 1); }
            present[i] = true; val[i] = v; count++;
        }
    }
    else
    {
        name(s, NAME, false);
        int i = find(s);
        trie_remove_str(t, s);
        if (i >= 0 && present[i]) { present[i] = false; count--; symx_reach("removed"); }
    }
    CHECK(trie_count(t) == count, "trie: wrong number of names");
}
void symx_main(void)
{
    symx_budget(3000000);
    uint64_t live = symx_live_heap();
    Trie t = trie_create(sizeof(uint64_t));
    for (int i = 0; i < STEPS; i++) one(&t);
    /* every name ever used */
    for (int i = 0; i < nn; i++)
    {
        void *d = NULL;
        bool c = trie_contains(&t, names[i], &d);
        CHECK(c == present[i], "trie: wrong presence of a name");
        if (c) CHECK(*(uint64_t *)d == val[i], "trie: wrong value of a name");
        CHECK(trie_contains(&t, names[i], NULL) == present[i], "trie: presence depends on out_data");
    }
#ifndef NOQUERY
    /* any query text */
    char q[QUERY + 1];
    name(q, QUERY, false);
    size_t best = 0; int bi = -1;
    for (int i = 0; i < nn; i++)
    {
        if (!present[i]) continue;
        size_t l = len(names[i]);
        bool pre = true;
        for (size_t k = 0; k < l; k++) if (q[k] != names[i][k]) { pre = false; break; }
        if (pre && l > best) { best = l; bi = i; }
    }
    void *d = NULL;
    size_t r = trie_longest_prefix(&t, q, &d);
    CHECK(r == best, "trie: longest prefix has the wrong length");
    if (bi >= 0) { CHECK(*(uint64_t *)d == val[bi], "trie: longest prefix has the wrong value"); symx_reach("prefix found"); }
    CHECK(trie_longest_prefix(&t, q, NULL) == best, "trie: longest prefix depends on out_data");
    int qi = find(q);
    CHECK(trie_contains(&t, q, NULL) == (qi >= 0 && present[qi]), "trie: wrong presence of the query text");
#endif
    /* iteration: every present name exactly once, in order, twice */
    TrieIterator it = trie_get_iterator(&t);
    for (int round = 0; round < 2; round++)
    {
        bool seen[MAXN] = {0};
        size_t n = 0;
        void *p;
        while ((p = iterator_get_next((Iterator *)&it)) != NULL)
        {
            const char *s = trie_get_current_string(&it);
            int i = find(s);
            CHECK(i >= 0 && present[i], "trie: iterator yields a name that is not present");
            CHECK(!seen[i], "trie: iterator yields a name twice");
            CHECK(*(uint64_t *)p == val[i], "trie: iterator yields a wrong value");
            seen[i] = true;
            n++;
        }
        CHECK(n == count, "trie: iterator misses a name");
        iterator_reset((Iterator *)&it);
    }
    if (count > 1) symx_reach("two names");
    symx_observe(count);
    trie_destroy(&t);
    CHECK(symx_live_heap() == live, "trie: memory is not released");
}
