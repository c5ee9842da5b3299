/* C09: the linked list is a sequence; node identity survives changes elsewhere. */
#include "symx.h"
#include <string.h>
#include "linked_list.h"
#ifndef STEPS
#define STEPS 4
#endif
#define MAXE 24
static unsigned char model[MAXE][12]; static ListNode *ident[MAXE];
static size_t cnt, es;
static unsigned char tmp[16];
static void ins(size_t at, ListNode *n, bool copied)
{
    for (size_t i = cnt; i > at; i--) { memcpy(model[i], model[i - 1], es); ident[i] = ident[i - 1]; }
    if (!copied) memcpy(listnode_get_data(n), tmp, es);
    memcpy(model[at], tmp, es);
    ident[at] = n;
    cnt++;
    memset(tmp, 0, sizeof tmp);
}
static void del(size_t at)
{
    for (size_t i = at; i + 1 < cnt; i++) { memcpy(model[i], model[i + 1], es); ident[i] = ident[i + 1]; }
    cnt--;
}
static void fresh(void) { for (size_t i = 0; i < es; i++) tmp[i] = symx_byte("content"); }
static void check_all(LinkedList *l)
{
    CHECK(list_count(l) == cnt, "list: wrong number of elements");
    for (size_t i = 0; i < cnt; i++)
    {
        CHECK(list_get_node(l, i) == ident[i], "list: element lost its identity or position");
        CHECK(memcmp(list_get_at(l, i), model[i], es) == 0, "list: element differs from what was stored");
        CHECK(memcmp(listnode_get_data(ident[i]), model[i], es) == 0, "list: data of a node differs");
        CHECK(listnode_get_next(ident[i]) == (i + 1 < cnt ? ident[i + 1] : NULL), "list: successor is wrong");
    }
    CHECK(l->first == (cnt ? ident[0] : NULL), "list: first element is wrong");
    CHECK(l->last == (cnt ? ident[cnt - 1] : NULL), "list: last element is wrong");
    LinkedListIterator it = list_get_iterator(l);
    for (int r = 0; r < 2; r++)
    {
        size_t n = 0;
        void *p;
        while ((p = iterator_get_next((Iterator *)&it)) != NULL)
        {
            CHECK(n < cnt, "list: iterator yields too many elements");
            CHECK(memcmp(p, model[n], es) == 0, "list: iterator yields a wrong element");
            n++;
            if (r == 0 && n == 1 && cnt > 2) break;       /* reset half way */
        }
        if (!(r == 0 && cnt > 2)) CHECK(n == cnt, "list: iterator stops early");
        iterator_reset((Iterator *)&it);
    }
}
static size_t idx(size_t hi) { return symx_concretize(symx_range("index", 0, hi)); }
static void one(LinkedList *l)
{
    bool copy = true;
    switch (symx_range("op", 0, 5))
    {
        case 0: { fresh(); copy = symx_range("copy", 0, 1); ListNode *n = list_append(l, copy ? tmp : NULL); ins(cnt, n, copy); break; }
        case 1: { fresh(); size_t i = idx(cnt); ListNode *n = list_insert_at(l, i, tmp); ins(i, n, true); symx_reach("insert"); break; }
        case 2: { fresh(); size_t i = idx(cnt); ListNode *n = list_insert_after(l, i ? ident[i - 1] : NULL, tmp); ins(i, n, true); break; }
        case 3: { if (!cnt) break; size_t i = idx(cnt - 1); list_delete_at(l, i); del(i); symx_reach("delete"); break; }
        case 4: { if (!cnt) break; size_t i = idx(cnt - 1); list_delete_node(l, ident[i]); del(i); break; }
        case 5: { if (!cnt) break; size_t i = idx(cnt - 1); fresh(); memcpy(listnode_get_data(ident[i]), tmp, es); memcpy(model[i], tmp, es); break; }
    }
}
void symx_main(void)
{
    static const size_t sizes[] = {1, 12};
    symx_budget(3000000);
    uint64_t live = symx_live_heap();
    es = sizes[symx_choose("elemsize", 2)];
    LinkedList l = list_create(es);
    size_t n = symx_choose("preload", PRELOAD + 1);
    for (size_t i = 0; i < n; i++) { fresh(); ListNode *p = list_append(&l, tmp); ins(cnt, p, true); }
    for (int i = 0; i < STEPS; i++) { one(&l); CHECK(list_count(&l) == cnt, "list: wrong number of elements"); }
    check_all(&l);
    if (cnt > 3) symx_reach("several elements");
    symx_observe(cnt);
    list_destroy(&l);
    CHECK(symx_live_heap() == live, "list: memory is not released");
}
