/* Sizes: the same properties for few large objects instead of all small ones. The size is picked from
   a list around the usual thresholds; contents are symbolic wherever the reference stays cheap. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "operator.h"
#include "node.h"
#include "tree_util.h"
#include "context.h"
#include "parser.h"
#include "history.h"
#include "linked_list.h"
#include "vector.h"
#include "trie.h"
#include "string_builder.h"
#include "string_util.h"
#include "tree_to_string.h"
#include "arith_context.h"
#include "arith_evaluation.h"
static const int sizes[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025};
static int pick(int max)
{
    int n = 0;
    while (n < (int)(sizeof sizes / sizeof *sizes) && sizes[n] <= max) n++;
    int s = sizes[symx_choose("size", n)];
    if (s >= 100) symx_reach("large");
    return s;
}
/* a position of interest out of 0..n-1 */
static int place(int n) { int at[] = {0, 1, n / 2, n - 2, n - 1}; int p = at[symx_choose("place", 5)]; return p < 0 || p >= n ? n - 1 : p; }
static bool bits_same(double x, double y) { uint64_t p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); return p == q || x == y || (x != x && y != y); }
#define MAXN 1100
static double val[MAXN];
#if PROP == 4
void symx_main(void)
{
    symx_budget(4000000);
    init_arith_ctx();
    static const char *const fn[] = {"sum", "prod", "avg", "var", "max", "min"};
    static const double pool[] = {3, -2, 0.5, 7, 0, -11, 4, 4};
    unsigned f = symx_choose("function", 6);
    const Operator *op = ctx_lookup_op(g_ctx, fn[f], OP_PLACE_FUNCTION);
    CHECK(op != NULL, "functions: one is missing");
    int n = pick(SIZE);
    if (n == 0 && f > 1) symx_discard();
    int at = n ? place(n) : 0;
    double big = f == 4 ? 100 : -100, want, got = 0;
    for (int i = 0; i < n; i++) val[i] = f == 1 ? (i % 2 ? 2 : 0.5) : pool[i % 8];
    if (n) val[at] = f >= 4 ? big : symx_choose("number", 2) ? 6 : -3;
    if (f == 0 || f == 2) { want = 0; for (int i = 0; i < n; i++) want += val[i]; if (f == 2) want /= n; }
    else if (f == 1) { want = 1; for (int i = 0; i < n; i++) want *= val[i]; }
    else if (f == 3) { double m = 0, s = 0; for (int i = 0; i < n; i++) m += val[i]; m /= n; for (int i = 0; i < n; i++) s += (val[i] - m) * (val[i] - m); want = s / n; }
    else want = big;
    CHECK(arith_op_evaluate(op, n, val, &got) == 0, "functions: a list of numbers is refused");
    double diff = got - want, tol = 1e-9 * (1 + (want < 0 ? -want : want));
    CHECK(diff <= tol && -diff <= tol, "functions: value of many numbers is wrong");
    unload_arith_ctx();
}
#elif PROP == 5
static int failing;
static double number(void) { double d = symx_double("const"); symx_assume(d == d); return d; }
static ListenerError listener(const Operator *op, size_t n, const double *a, double *out)
{
    if (op->arity == 1) { *out = a[0] * 0.5 + 1; return 0; }
    if (op->arity == 0) { *out = 5; return failing ? 9 : 0; }
    double r = op->id + 1;
    for (size_t i = 0; i < n; i++) r = r * 0.5 + a[i];
    *out = r;
    return 0;
}
static int ref(const Node *t, double *out)
{
    if (get_type(t) == NTYPE_CONSTANT) { *out = get_const_value(t); return 0; }
    if (get_type(t) == NTYPE_VARIABLE) return LISTENERERR_VARIABLE_ENCOUNTERED;
    size_t n = get_num_children(t);
    double *a = malloc(8 * n + 8);
    int e = 0;
    for (size_t i = 0; i < n && !e; i++) e = ref(get_child(t, i), &a[i]);
    if (!e) e = listener(get_op(t), n, a, out);
    free(a);
    return e;
}
void symx_main(void)
{
    symx_budget(40000000);
    Operator many = op_get_function("many", OP_DYNAMIC_ARITY), one = op_get_function("one", 1), bad = op_get_constant("bad"), two = op_get_infix("+", 2, OP_ASSOC_LEFT);
    many.id = 1; one.id = 2; bad.id = 3; two.id = 4;
    uint64_t live = symx_live_heap();
    int n = pick(SIZE);
    unsigned shape = symx_choose("shape", 3);
    unsigned extra = symx_choose("extra", 4);   /* nothing, failing leaf, variable, nested function */
    failing = extra == 1;
    Node *t, *leaf = extra == 0 ? malloc_constant_node(number(), 0) : extra == 1 ? malloc_operator_node(&bad, 0, 3) : extra == 2 ? malloc_variable_node("x", 0, 3) : malloc_operator_node(&one, 1, 3);
    Node *in = leaf;
    if (extra == 3) set_child(leaf, 0, malloc_constant_node(number(), 0));
    if (shape == 0)
    {
        if (n == 0) symx_discard();
        int at = place(n);
        t = malloc_operator_node(&many, n, 1);
        for (int i = 0; i < n; i++) set_child(t, i, i == at ? leaf : malloc_constant_node(number(), 2));
    }
    else
    {
        unsigned side = shape == 2 ? symx_choose("side", 2) : 0;
        t = leaf;
        for (int i = 0; i < n; i++)
        {
            Node *p = malloc_operator_node(shape == 1 ? &one : &two, shape, 1);
            set_child(p, side, t);
            if (shape == 2) set_child(p, 1 - side, malloc_constant_node(number(), 2));
            t = p;
        }
    }
    double want = 0, got = 0;
    const Node *en = NULL;
    int e = ref(t, &want);
    CHECK(tree_reduce(t, listener, &got, &en) == e, "evaluation: wrong error of a large tree");
    if (e) CHECK(en == in, "evaluation: error of a large tree reported at a wrong place");
    else { CHECK(bits_same(want, got), "evaluation: wrong value of a large tree"); symx_reach("value"); }
    int ce = e == LISTENERERR_VARIABLE_ENCOUNTERED ? 0 : e;
    Node *orig = tree_copy(t);
    CHECK(tree_reduce_constant_subtrees(&t, listener, &en) == ce, "evaluation: wrong error of a large tree's constants");
    if (e == 0) CHECK(get_type(t) == NTYPE_CONSTANT && bits_same(get_const_value(t), want), "evaluation: large constant tree reduced to a wrong value");
    else if (ce == 0) { CHECK(tree_equals(t, orig) || extra == 0, "evaluation: large tree without constants to reduce changed"); symx_reach("unchanged"); }
    free_tree(t);
    free_tree(orig);
    CHECK(symx_live_heap() == live, "evaluation: memory is not released");
}
#elif PROP == 7
void symx_main(void)
{
    symx_budget(4000000);
    init_history();
    int n = pick(SIZE);
    for (int i = 0; i < n; i++) { val[i] = symx_double("result"); history_add(val[i]); }
    for (int i = 0; i < n; i++)
    {
        double d = 0;
        CHECK(history_get(i, &d), "history: one of many results is gone");
        CHECK(bits_same(d, val[n - 1 - i]), "history: gives the wrong one of many results");
    }
    double d;
    CHECK(!history_get(n, &d), "history: answers for a wrong index");
    unload_history();
}
#elif PROP == 8
void symx_main(void)
{
    symx_budget(6000000);
    uint64_t live = symx_live_heap();
    int n = pick(SIZE);
    static const int starts[] = {0, 1, 3, 10, 64};
    Vector v = vec_create(8, starts[symx_choose("start", 5)]);
    unsigned how = symx_choose("how", 3);
    for (int i = 0; i < n; i++) val[i] = symx_double("element");
    if (how == 0) for (int i = 0; i < n; i++) vec_push(&v, &val[i]);
    else if (how == 1) { vec_push_many(&v, n, val); }
    else for (int i = 0; i < n; i += 3) { if (n - i >= 3) vec_push_many(&v, 3, val + i); else for (int j = i; j < n; j++) *(double *)vec_push_empty(&v) = val[j]; }
    if (n && symx_choose("pop", 2)) { double *p = vec_pop(&v); CHECK(bits_same(*p, val[n - 1]), "vector: popped element is wrong"); n--; }
    if (symx_choose("trim", 2)) vec_trim(&v);
    if (symx_choose("again", 2)) { double d = symx_double("last"); val[n++] = d; vec_push(&v, &d); }
    CHECK(vec_count(&v) == (size_t)n, "vector: wrong number of elements");
    VectorIterator it = vec_get_iterator(&v);
    for (int i = 0; i < n; i++)
    {
        CHECK(bits_same(*(double *)vec_get(&v, i), val[i]), "vector: one of many elements differs from what was stored");
        double *p = iterator_get_next((Iterator *)&it);
        CHECK(p != NULL && bits_same(*p, val[i]), "vector: iterator yields a wrong element");
    }
    CHECK(iterator_get_next((Iterator *)&it) == NULL, "vector: iterator yields too many elements");
    vec_destroy(&v);
    CHECK(symx_live_heap() == live, "vector: memory is not released");
}
#elif PROP == 9
void symx_main(void)
{
    symx_budget(6000000);
    uint64_t live = symx_live_heap();
    int n = pick(SIZE);
    LinkedList l = list_create(8);
    static ListNode *node[MAXN];
    for (int i = 0; i < n; i++) { val[i] = symx_double("element"); node[i] = list_append(&l, &val[i]); }
    int at = n ? place(n) : 0;
    unsigned what = symx_choose("change", 4);
    if (what == 1 && n) { list_delete_at(&l, at); for (int i = at; i + 1 < n; i++) { val[i] = val[i + 1]; node[i] = node[i + 1]; } n--; }
    if (what == 2) { double d = symx_double("new"); ListNode *p = list_insert_at(&l, at, &d); for (int i = n; i > at; i--) { val[i] = val[i - 1]; node[i] = node[i - 1]; } val[at] = d; node[at] = p; n++; }
    if (what == 3 && n) { list_delete_node(&l, node[at]); for (int i = at; i + 1 < n; i++) { val[i] = val[i + 1]; node[i] = node[i + 1]; } n--; }
    CHECK(list_count(&l) == (size_t)n, "list: wrong number of elements");
    LinkedListIterator it = list_get_iterator(&l);
    for (int i = 0; i < n; i++)
    {
        double *p = iterator_get_next((Iterator *)&it);
        CHECK(p != NULL && bits_same(*p, val[i]), "list: iterator yields a wrong one of many elements");
        CHECK(p == listnode_get_data(node[i]), "list: element lost its identity");
        CHECK(listnode_get_next(node[i]) == (i + 1 < n ? node[i + 1] : NULL), "list: successor is wrong");
    }
    CHECK(iterator_get_next((Iterator *)&it) == NULL, "list: iterator yields too many elements");
    if (n) for (int k = 0; k < 5; k++) { int i = k == 0 ? 0 : k == 1 ? 1 % n : k == 2 ? n / 2 : k == 3 ? n - 1 : at % n; CHECK(list_get_node(&l, i) == node[i], "list: wrong element at an index"); }
    list_destroy(&l);
    CHECK(symx_live_heap() == live, "list: memory is not released");
}
#elif PROP == 10
static char key[MAXN + 8], work[MAXN + 16];
/* the i-th of many names: base 26, so they share prefixes */
static void name_of(int i, char *out) { int n = 0; do { out[n++] = 'a' + i % 5; i /= 5; } while (i); out[n] = 0; }
void symx_main(void)
{
    symx_budget(20000000);
    uint64_t live = symx_live_heap();
    Trie t = trie_create(8);
    int n = pick(SIZE);
    void *d;
    if (symx_choose("what", 2))
    {
        /* one long key next to its prefixes */
        for (int i = 0; i < n; i++) { char c = i == 7 ? (char)(97 + symx_range("key", 0, 4)) : (char)(97 + i % 5); key[i] = c; }
        key[n] = 0;
        double v = symx_double("data");
        memcpy(trie_add_str(&t, key), &v, 8);
        int p = n ? place(n) : 0;
        memcpy(work, key, n + 1);
        work[p] = 0;
        double w = symx_double("data");
        if (p != n) { memcpy(trie_add_str(&t, work), &w, 8); CHECK(trie_count(&t) == 2, "trie: wrong number of keys"); }
        CHECK(trie_contains(&t, key, &d) && bits_same(*(double *)d, v), "trie: data of a long key is wrong");
        if (p != n) CHECK(trie_contains(&t, work, &d) && bits_same(*(double *)d, w), "trie: data of its prefix is wrong");
        memcpy(work, key, n); work[n] = 'z'; work[n + 1] = 0;
        CHECK(!trie_contains(&t, work, &d), "trie: finds a key that was never added");
        CHECK(trie_longest_prefix(&t, work, &d) == (size_t)n && (n == 0 || bits_same(*(double *)d, v)), "trie: longest prefix of a long text is wrong");
        trie_remove_str(&t, key);
        CHECK(trie_contains(&t, key, &d) == (p == n && 0), "trie: removed key is still there");
        if (p != n) { work[p] = 0; memcpy(work, key, p); CHECK(trie_contains(&t, work, &d), "trie: prefix of a removed key is gone"); }
    }
    else
    {
        for (int i = 0; i < n; i++) { name_of(i, key); val[i] = symx_double("data"); memcpy(trie_add_str(&t, key), &val[i], 8); }
        CHECK(trie_count(&t) == (size_t)n, "trie: wrong number of keys");
        int gone = n ? place(n) : -1;
        if (gone >= 0) { name_of(gone, key); trie_remove_str(&t, key); }
        for (int i = 0; i <= n; i++)
        {
            name_of(i, key);
            bool in = i < n && i != gone;
            CHECK(trie_contains(&t, key, &d) == in, "trie: knows the wrong ones of many keys");
            if (in) CHECK(bits_same(*(double *)d, val[i]), "trie: data of one of many keys is wrong");
        }
        int seen = 0;
        TrieIterator it = trie_get_iterator(&t);
        while (iterator_get_next((Iterator *)&it) != NULL) { CHECK(trie_contains(&t, trie_get_current_string(&it), NULL), "trie: iterator makes up a key"); seen++; }
        CHECK(seen == n - (gone >= 0), "trie: iterator yields a wrong number of keys");
        symx_reach("iterated");
    }
    trie_destroy(&t);
    CHECK(symx_live_heap() == live, "trie: memory is not released");
}
#elif PROP == 11
static char nm[MAXN][8];
void symx_main(void)
{
    symx_budget(40000000);
    uint64_t live = symx_live_heap();
    ParsingContext ctx = ctx_create();
    int n = pick(SIZE);
    static const Operator *op[MAXN]; static size_t id[MAXN];
    unsigned placement = symx_choose("placement", 4);
    for (int i = 0; i < n; i++)
    {
        snprintf(nm[i], 8, "f%c%c%c", 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676);
        unsigned char prec = (unsigned char)(1 + i % 200);
        Operator o = placement == OP_PLACE_FUNCTION ? op_get_function(nm[i], i % 4) : placement == OP_PLACE_INFIX ? op_get_infix(nm[i], prec, OP_ASSOC_LEFT) : placement == OP_PLACE_PREFIX ? op_get_prefix(nm[i], prec) : op_get_postfix(nm[i], prec);
        op[i] = ctx_add_op(&ctx, o);
        CHECK(op[i] != NULL, "operators: one of many is refused");
        id[i] = op[i]->id;
    }
    int gone = n ? place(n) : -1;
    if (gone >= 0) CHECK(ctx_delete_op(&ctx, nm[gone], placement), "operators: one of many cannot be removed");
    const Operator *extra = symx_choose("another", 2) ? ctx_add_op(&ctx, op_get_function("extra", 1)) : NULL;
    for (int i = 0; i < n; i++)
    {
        const Operator *r = ctx_lookup_op(&ctx, nm[i], placement);
        if (i == gone) { CHECK(r == NULL, "operators: removed one is found"); continue; }
        CHECK(r == op[i] && r->id == id[i] && strcmp(r->name, nm[i]) == 0, "operators: one of many is not found");
        CHECK(extra == NULL || extra->id != id[i], "operators: identifiers are not unique");
        if (i && i - 1 != gone) CHECK(id[i] != id[i - 1], "operators: identifiers are not unique");
        CHECK(i == 0 || gone == 0 || id[i] != id[0], "operators: identifiers are not unique");
    }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n && j < i + 300; j++) if (i != gone && j != gone && id[i] == id[j]) symx_fail("operators: identifiers are not unique");
    CHECK(list_count(&ctx.op_list) == (size_t)(n - (gone >= 0) + (extra != NULL)), "operators: wrong number");
    ctx_destroy(&ctx);
    CHECK(symx_live_heap() == live, "operators: memory is not released");
}
#elif PROP == 12
static char piece[MAXN + 8], want[6 * MAXN];
void symx_main(void)
{
    symx_budget(20000000);
    uint64_t live = symx_live_heap();
    int n = pick(SIZE), m = 0;
    for (int i = 0; i < n; i++) piece[i] = i % 50 == 7 ? (char)('a' + (symx_byte("text") & 15)) : 'a' + i % 26;
    piece[n] = 0;
    static const int starts[] = {0, 1, 20, 256};
    StringBuilder b = strbuilder_create(starts[symx_choose("start", 4)]);
    for (int s = 0; s < 2; s++)
        switch (symx_choose("do", 4))
        {
        case 0: strbuilder_append(&b, "%s", piece); memcpy(want + m, piece, n); m += n; break;
        case 1: strbuilder_append(&b, "<%s,%d>", piece, n); m += sprintf(want + m, "<%s,%d>", piece, n); break;
        case 2: for (int i = 0; i < n; i++) { strbuilder_append_char(&b, piece[i]); want[m++] = piece[i]; } break;
        case 3: strbuilder_append(&b, "%*s%-*s|", n, "r", n, "l"); m += sprintf(want + m, "%*s%-*s|", n, "r", n, "l"); break;
        }
    strbuilder_append_char(&b, '!'); want[m++] = '!'; want[m] = 0;
    char *s = strbuilder_to_str(&b);
    CHECK(strlen(s) == (size_t)m && memcmp(s, want, m) == 0, "text: a long text is built wrongly");
    CHECK(begins_with(want, s) && begins_with(piece, piece) && !begins_with(s, piece), "text: prefix of a long text");
    vec_destroy(&b);
    /* a text of many parts and lines */
    for (int i = 0; i < n; i++) want[2 * i] = 'x', want[2 * i + 1] = '\n';
    want[2 * n] = 0;
    int k = n ? place(n) : 0;
    char *line;
    CHECK(get_line_of_string(want, k, &line) == (n ? 1 : 0) && line == want + 2 * k, "text: one of many lines is wrong");
    memset(want, ' ', n); strcpy(want + n, "word"); memset(want + n + 4, ' ', n); want[2 * n + 4] = 0;
    char *st = strip(want);
    CHECK(strcmp(st, "word") == 0, "text: many spaces are not stripped");
    CHECK(symx_live_heap() == live, "text: memory is not released");
}
#elif PROP == 20
static Node *kid(int i, bool ids) { return i % 3 == 0 ? malloc_variable_node(i % 2 ? "x" : "y", ids ? i : 0, i) : malloc_constant_node(val[i], i); }
void symx_main(void)
{
    symx_budget(20000000);
    Operator many = op_get_function("many", OP_DYNAMIC_ARITY), neg = op_get_prefix("-", 5);
    many.id = 1; neg.id = 2;
    uint64_t live = symx_live_heap();
    int n = pick(SIZE);
    if (n == 0) symx_discard();
    for (int i = 0; i < n; i++) { val[i] = symx_double("const"); symx_assume(val[i] == val[i]); }
    unsigned deep = symx_choose("deep", 2);
    int at = place(n);
    Node *t = NULL, *u = NULL;
    for (int r = 0; r < 2; r++)
    {
        Node *x;
        if (!deep) { x = malloc_operator_node(&many, n, 0); for (int i = 0; i < n; i++) set_child(x, i, kid(i, false)); }
        else { x = kid(0, false); for (int i = 1; i < n; i++) { Node *p = malloc_operator_node(&many, 2, i); set_child(p, i % 2, x); set_child(p, 1 - i % 2, kid(i, false)); x = p; } }
        if (r) u = x; else t = x;
    }
    int nx = 0, ny = 0;
    for (int i = 0; i < n; i += 3) if (i % 2) nx++; else ny++;
    CHECK(tree_equals(t, u), "trees: large trees built alike are not equal");
    Node *c = tree_copy(t);
    CHECK(tree_equals(t, c), "trees: copy of a large tree differs");
    CHECK(count_all_variable_nodes(t) == (size_t)(nx + ny), "trees: wrong number of variables in a large tree");
    Node ***where = malloc(8 * (n + 1));
    const char **names = malloc(8 * (n + 1));
    bool suff;
    Node *nc = tree_copy(t);
    size_t k = list_variables(nc, n + 1, names, &suff);
    free_tree(nc);
    CHECK(suff && k == (size_t)((nx > 0) + (ny > 0)), "trees: variables of a large tree are listed wrongly");
    k = get_variable_nodes((const Node **)&t, "x", n + 1, where);
    CHECK(k == (size_t)nx, "trees: occurrences in a large tree are missing");
    for (size_t i = 0; i < k; i++)
    {
        Node **o = where[i];
        CHECK(get_type(*o) == NTYPE_VARIABLE && strcmp(get_var_name(*o), "x") == 0, "trees: occurrence is none");
        for (size_t j = 0; j < i; j++) if (where[j] == o) symx_fail("trees: occurrence is listed twice");
    }
    free(where); free(names);
    /* one child differs */
    Node *sub = malloc_operator_node(&neg, 1, 0);
    set_child(sub, 0, malloc_constant_node(7, 0));
    if (!deep)
    {
        tree_replace(get_child_addr(c, at), tree_copy(sub));
        CHECK(!tree_equals(t, c) && !tree_equals(c, t), "trees: different large trees are equal");
        CHECK(find_op((const Node **)&c, &neg) == get_child_addr(c, at), "trees: operator in a large tree is not found");
        symx_reach("different");
    }
    CHECK(find_op((const Node **)&t, &neg) == NULL, "trees: operator is found where there is none");
    CHECK(replace_variable_nodes(&u, sub, "x") == (size_t)nx, "trees: wrong number of substitutions in a large tree");
    CHECK(count_all_variable_nodes(u) == (size_t)ny, "trees: substitution misses an occurrence");
    if (nx == 0) CHECK(tree_equals(u, t), "trees: substitution of nothing changes a tree");
    if (!deep)
    {
        for (int i = 0; i < n; i++)
        {
            const Node *a = get_child(t, i), *b = get_child(u, i);
            CHECK(i % 3 == 0 && i % 2 ? tree_equals(b, sub) : tree_equals(a, b), "trees: substitution replaces the wrong ones");
        }
        /* a list instead of one child */
        NodeList list;
        Node **nodes = malloc(8 * (size_t)n);
        for (int i = 0; i < n; i++) nodes[i] = get_child(t, i);
        list.size = n;
        list.nodes = (const Node **)nodes;
        tree_replace_by_list(&u, at, list);
        CHECK(get_num_children(u) == (size_t)(2 * n - 1), "trees: list has a wrong number of children");
        for (int i = 0; i < n; i++) CHECK(tree_equals(get_child(u, at + i), get_child(t, i)), "trees: list is inserted wrongly");
        free(nodes);
    }
    free_tree(sub); free_tree(t); free_tree(u); free_tree(c);
    CHECK(symx_live_heap() == live, "trees: memory is not released");
}
#endif
