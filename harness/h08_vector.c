/* C08: the vector is a sequence. Model: a flat array of element images. */
#include "symx.h"
#include <string.h>
#include "vector.h"
#ifndef STEPS
#define STEPS 4
#endif
#define MAXE 200
static unsigned char model[MAXE][24];
static size_t cnt, es;
static unsigned char tmp[64 * 24];
static void fresh(unsigned char *p) { for (size_t i = 0; i < es; i++) p[i] = symx_byte("content"); }
static void check_all(Vector *v)
{
    CHECK(vec_count(v) == cnt, "vector: wrong number of elements");
    for (size_t i = 0; i < cnt; i++) CHECK(memcmp(vec_get(v, i), model[i], es) == 0, "vector: element differs from what was stored");
}
static void check_iter(Vector *v)
{
    VectorIterator it = vec_get_iterator(v);
    for (int round = 0; round < 2; round++)
    {
        size_t n = 0;
        void *p;
        while ((p = iterator_get_next((Iterator *)&it)) != NULL)
        {
            CHECK(n < cnt, "vector: iterator yields too many elements");
            CHECK(memcmp(p, model[n], es) == 0, "vector: iterator yields a wrong element");
            n++;
        }
        CHECK(n == cnt, "vector: iterator stops early");
        iterator_reset((Iterator *)&it);
    }
}
static void push_many(Vector *v, size_t n)
{
    for (size_t i = 0; i < n; i++) { fresh(model[cnt + i]); memcpy(tmp + i * es, model[cnt + i], es); }
    void *first = vec_push_many(v, n, tmp);
    size_t at = cnt;
    cnt += n;
    if (n) CHECK(memcmp(first, tmp, n * es) == 0, "vector: push_many does not return the first new element");
    if (n) CHECK(first == vec_get(v, at), "vector: push_many returns another element");
}
static void one(Vector *v)
{
    unsigned op = symx_range("op", 0, 8);
    switch (op)
    {
        case 0: { fresh(model[cnt]); memcpy(tmp, model[cnt], es); void *p = vec_push(v, tmp); memset(tmp, 0, es); CHECK(p == vec_get(v, cnt), "vector: push does not return the new element"); cnt++; break; }
        case 1: push_many(v, 2 + symx_choose("many", 2)); break;
        case 2: { fresh(model[cnt]); void *p = vec_push_empty(v); memcpy(p, model[cnt], es); cnt++; break; }
        case 3:
        {
            void *p = vec_pop(v);
            if (cnt == 0) CHECK(p == NULL, "vector: pop of an empty vector yields an element");
            else { CHECK(p != NULL, "vector: pop yields nothing"); cnt--; CHECK(memcmp(p, model[cnt], es) == 0, "vector: pop yields a wrong element"); }
            break;
        }
        case 4: vec_trim(v); symx_reach("trim"); break;
        case 5: vec_ensure_size(v, symx_choose("ensure", 4) * 3); break;
        case 6: if (symx_range("clear?", 0, 3) == 0) { vec_clear(v); cnt = 0; } else { push_many(v, 0); } break;
        case 7:
            if (cnt == 0) break;
            { size_t i = symx_concretize(symx_range("index", 0, cnt - 1)); fresh(model[i]); memcpy(vec_get(v, i), model[i], es); }
            break;
        case 8:
        {
            void *p = vec_peek(v);
            if (cnt == 0) CHECK(p == NULL, "vector: peek of an empty vector yields an element");
            else CHECK(p != NULL && memcmp(p, model[cnt - 1], es) == 0, "vector: peek yields a wrong element");
            break;
        }
    }
    CHECK(vec_count(v) == cnt, "vector: wrong number of elements");
}
void symx_main(void)
{
    static const size_t sizes[] = {1, 3, 8, 24};
    static const size_t starts[] = {0, 1, 2, 7, 50};
    symx_budget(3000000);
    uint64_t live = symx_live_heap();
#ifdef LONG
    /* long runs that cross several growth steps */
    es = sizes[symx_choose("elemsize", 3)];
    Vector v = vec_create(es, starts[symx_choose("start", 5)]);
    push_many(&v, symx_choose("n1", 41));
    if (symx_choose("trim", 2)) vec_trim(&v);
    for (int i = 0; i < LONG; i++) one(&v);
    push_many(&v, 30);
    for (int i = 0; i < 12; i++) { fresh(model[cnt]); vec_push(&v, model[cnt]); cnt++; }
#else
    es = sizes[symx_choose("elemsize", 4)];
    Vector v = vec_create(es, starts[symx_choose("start", 3)]);
    for (int i = 0; i < STEPS; i++) one(&v);
#endif
    check_all(&v);
    check_iter(&v);
#ifdef ANYINDEX
    if (cnt > 1)
    {
        /* the last byte of an element chosen by the solver */
        size_t k = symx_range("which", 0, cnt - 1);
        CHECK(((unsigned char *)vec_get(&v, k))[es - 1] == model[k][es - 1], "vector: element differs from what was stored");
    }
#endif
    symx_observe(vec_count(&v));
    if (cnt > 2) symx_reach("several elements");
    vec_destroy(&v);
    CHECK(symx_live_heap() == live, "vector: memory is not released");
}
