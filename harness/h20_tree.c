/* C20: copying, comparing, substituting in and searching trees. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "operator.h"
#include "node.h"
#include "tree_util.h"
static Operator ops[3];     /* arity 2, 1, 0..3 children */
static int budget;
static const char *const vn[] = {"x", "y", "xx"};
static Node *gen(bool ids)
{
    if (budget == 0 || !symx_choose("inner", 2))
    {
        if (symx_choose("var", 2)) {
            unsigned name = symx_choose("name", 3), id = ids ? symx_range("id", 0, 1) : 0, token = symx_range("token", 0, 9);
            return malloc_variable_node(vn[name], id, token);
        }
        return malloc_constant_node(symx_double("const"), 3);
    }
    budget--;
    unsigned k = symx_choose("op", 3), n = k == 0 ? 2 : k == 1 ? 1 : symx_choose("children", 4);
    Node *t = malloc_operator_node(&ops[k], n, symx_range("token", 0, 9));
    for (unsigned i = 0; i < n; i++) set_child(t, i, gen(ids));
    return t;
}
/* reference equality; NaN differs from everything */
static bool same(const Node *a, const Node *b)
{
    if (get_type(a) != get_type(b)) return false;
    if (get_type(a) == NTYPE_CONSTANT) return get_const_value(a) == get_const_value(b);
    if (get_type(a) == NTYPE_VARIABLE) return strcmp(get_var_name(a), get_var_name(b)) == 0 && get_id(a) == get_id(b);
    if (get_op(a) != get_op(b) || get_num_children(a) != get_num_children(b)) return false;
    for (size_t i = 0; i < get_num_children(a); i++) if (!same(get_child(a, i), get_child(b, i))) return false;
    return true;
}
/* identical down to the bits, and in blocks of its own */
static void identical(const Node *a, const Node *b, bool tokens)
{
    CHECK(a != b, "trees: copy shares a node");
    CHECK(get_type(a) == get_type(b), "trees: copy has another kind of node");
    if (tokens) CHECK(get_token_index(a) == get_token_index(b), "trees: copy refers to another token");
    if (get_type(a) == NTYPE_CONSTANT)
    {
        double x = get_const_value(a), y = get_const_value(b);
        uint64_t p, q;
        memcpy(&p, &x, 8); memcpy(&q, &y, 8);
        CHECK(p == q || (x != x && y != y), "trees: copy has another constant");
        return;
    }
    if (get_type(a) == NTYPE_VARIABLE)
    {
        CHECK(strcmp(get_var_name(a), get_var_name(b)) == 0, "trees: copy has another variable");
        CHECK(get_var_name(a) != get_var_name(b), "trees: copy shares a name");
        CHECK(get_id(a) == get_id(b), "trees: copy has another identifier");
        return;
    }
    CHECK(get_op(a) == get_op(b) && get_num_children(a) == get_num_children(b), "trees: copy has another operator");
    for (size_t i = 0; i < get_num_children(a); i++) identical(get_child(a, i), get_child(b, i), tokens);
}
static size_t vars(const Node *t, const char *name)
{
    if (get_type(t) == NTYPE_VARIABLE) return name == NULL || strcmp(get_var_name(t), name) == 0;
    size_t n = 0;
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) n += vars(get_child(t, i), name);
    return n;
}
static Node **found[40]; static size_t nfound;
static void where(Node **t, const char *name)
{
    if (get_type(*t) == NTYPE_VARIABLE) { if (strcmp(get_var_name(*t), name) == 0) found[nfound++] = t; return; }
    if (get_type(*t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(*t); i++) where(get_child_addr(*t, i), name);
}
static Node **first_op(Node **t, const Operator *op)
{
    if (get_type(*t) != NTYPE_OPERATOR) return NULL;
    if (get_op(*t) == op) return t;
    for (size_t i = 0; i < get_num_children(*t); i++) { Node **r = first_op(get_child_addr(*t, i), op); if (r) return r; }
    return NULL;
}
/* after is before with every occurrence of name replaced by sub */
static void replaced(const Node *before, const Node *after, const char *name, const Node *sub)
{
    if (get_type(before) == NTYPE_VARIABLE && strcmp(get_var_name(before), name) == 0) { identical(sub, after, true); return; }
    CHECK(get_type(before) == get_type(after), "trees: substitution replaces too much");
    if (get_type(before) != NTYPE_OPERATOR) { identical(before, after, true); return; }
    CHECK(get_op(before) == get_op(after) && get_num_children(before) == get_num_children(after), "trees: substitution changes an operator");
    for (size_t i = 0; i < get_num_children(before); i++) replaced(get_child(before, i), get_child(after, i), name, sub);
}
static void scribble(Node *t)
{
    set_token_index(t, 77);
    if (get_type(t) == NTYPE_VARIABLE) { set_id(t, 9); ((char *)get_var_name(t))[0] = 'q'; }
    if (get_type(t) == NTYPE_OPERATOR) { set_op(t, NULL); for (size_t i = 0; i < get_num_children(t); i++) scribble(get_child(t, i)); }
}
static const char *names[8]; static size_t nnames;
static void distinct(const Node *t)
{
    if (get_type(t) == NTYPE_VARIABLE)
    {
        for (size_t i = 0; i < nnames; i++) if (strcmp(names[i], get_var_name(t)) == 0) return;
        names[nnames++] = get_var_name(t);
    }
    else if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) distinct(get_child(t, i));
}
static void ids(const Node *t)
{
    if (get_type(t) == NTYPE_VARIABLE)
    {
        size_t k = 0;
        while (strcmp(names[k], get_var_name(t)) != 0) k++;
        CHECK(get_id(t) == k, "trees: listing variables numbers them wrongly");
    }
    else if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) ids(get_child(t, i));
}
void symx_main(void)
{
    symx_budget(3000000);
    uint64_t live = symx_live_heap();
    ops[0] = op_get_infix("+", 2, OP_ASSOC_LEFT); ops[0].id = 4;
    ops[1] = op_get_prefix("-", 2); ops[1].id = 5;
    ops[2] = op_get_function("sum", OP_DYNAMIC_ARITY); ops[2].id = 6;
    budget = BUDGET;
    unsigned what = symx_choose("what", 6);
    if (what == 0)
    {
        Node *t = gen(true), *c = tree_copy(t), *d = tree_copy(t);
        identical(t, c, true);
        CHECK(tree_equals(t, c) == same(t, c) && tree_equals(c, t) == same(t, c), "trees: copy is not equal to the original");
        scribble(t);
        identical(c, d, true);
        free_tree(t);
        identical(c, d, true);
        free_tree(c);
        free_tree(d);
        symx_reach("copied");
    }
    else if (what == 1)
    {
        budget = BUDGET2;
        Node *a = gen(true);
        budget = BUDGET2;
        Node *b = gen(true);
        bool s = symx_concretize(same(a, b));
        if (s) CHECK(tree_equals(a, b), "trees: equal trees are told to differ");
        else CHECK(!tree_equals(a, b), "trees: different trees are told to be equal");
        CHECK(tree_equals(b, a) == s, "trees: equality is not symmetric");
        CHECK(!tree_equals(a, NULL) && !tree_equals(NULL, a), "trees: nothing equals a tree");
        if (s) symx_reach("equal"); else symx_reach("different");
        free_tree(a); free_tree(b);
    }
    else if (what == 2)
    {
        Node *t = gen(false), *o = tree_copy(t);
        budget = 1;
        Node *sub = gen(false);
        const char *name = vn[symx_choose("replace", 3)];
        size_t n = vars(t, name);
        CHECK(replace_variable_nodes(&t, sub, name) == n, "trees: number of substitutions is wrong");
        replaced(o, t, name, sub);
        if (n > 1) symx_reach("substituted");
        free_tree(t); free_tree(o); free_tree(sub);
    }
    else if (what == 3)
    {
        Node *t = gen(false), *o = tree_copy(t);
        CHECK(count_all_variable_nodes(t) == vars(t, NULL), "trees: number of variables is wrong");
        const char *name = vn[symx_choose("search", 3)];
        where(&t, name);
        size_t buf = symx_choose("buffer", 4);
        Node **inst[5] = {NULL, NULL, NULL, NULL, NULL};
        CHECK(get_variable_nodes((const Node **)&t, name, buf, buf ? inst : NULL) == nfound, "trees: number of occurrences is wrong");
        for (size_t i = 0; i < buf && i < nfound; i++) CHECK(inst[i] == found[i], "trees: occurrence is wrong");
        for (size_t i = buf; i < 5; i++) CHECK(inst[i] == NULL, "trees: buffer of occurrences overflows");
        if (nfound > 1 && buf > 1) symx_reach("occurrences");
        unsigned k = symx_choose("op", 3);
        CHECK(find_op((const Node **)&t, &ops[k]) == first_op(&t, &ops[k]), "trees: finds a wrong operator");
        identical(o, t, true);
        free_tree(t); free_tree(o);
    }
    else if (what == 4)
    {
        Node *t = gen(true);
        distinct(t);
        size_t buf = symx_choose("buffer", 5);
        const char *out[5] = {NULL, NULL, NULL, NULL, NULL};
        bool enough = symx_choose("init", 2);
        size_t n = list_variables(t, buf, out, &enough);
        CHECK(enough == (nnames <= buf), "trees: listing variables: buffer");
        if (enough)
        {
            CHECK(n == nnames, "trees: listing variables: wrong number");
            for (size_t i = 0; i < n; i++) CHECK(strcmp(out[i], names[i]) == 0, "trees: listing variables: wrong name");
            ids(t);
            if (n > 1) symx_reach("listed");
            Node *u = tree_copy(t);
            scribble(u);
            free_tree(u);
            budget = 1;
            u = gen(true);
            Node *w = tree_copy(u);
            tree_copy_IDs(u, n, out);
            Node *p = u, *q = w;
            for (size_t i = 0; ; i++)
            {
                if (get_type(p) == NTYPE_VARIABLE)
                {
                    size_t k = 0;
                    while (k < n && strcmp(names[k], get_var_name(p)) != 0) k++;
                    CHECK(get_id(p) == (k < n ? k : get_id(q)), "trees: copying identifiers");
                }
                if (get_type(u) != NTYPE_OPERATOR || i >= get_num_children(u)) break;
                p = get_child(u, i); q = get_child(w, i);
            }
            free_tree(u); free_tree(w);
        }
        else for (size_t i = buf; i < 5; i++) CHECK(out[i] == NULL, "trees: listing variables: buffer overflows");
        free_tree(t);
    }
    else
    {
        /* replacing a child by a list, replacing a tree */
        unsigned n = symx_choose("n", 4) + 1, at = symx_choose("at", n), m = symx_choose("m", 4);
        Node *t = malloc_operator_node(&ops[2], n, 5), *o;
        budget = 0;
        for (unsigned i = 0; i < n; i++) { Node *c = malloc_operator_node(&ops[1], 1, i); set_child(c, 0, malloc_constant_node(symx_double("const"), i)); set_child(t, i, c); }
        o = tree_copy(t);
        Node *kept[4];
        for (unsigned i = 0; i < n; i++) kept[i] = get_child(t, i);
        const Node *list[3];
        for (unsigned i = 0; i < m; i++) list[i] = malloc_variable_node(vn[i], i, 40 + i);
        tree_replace_by_list(&t, at, (NodeList){.size = m, .nodes = list});
        CHECK(get_type(t) == NTYPE_OPERATOR && get_op(t) == &ops[2] && get_num_children(t) == n - 1 + m && get_token_index(t) == 5, "trees: replacing by a list: operator");
        for (unsigned i = 0; i < n - 1 + m; i++)
        {
            if (i < at) { CHECK(get_child(t, i) == kept[i], "trees: replacing by a list: child lost"); identical(get_child(t, i), get_child(o, i), true); }
            else if (i < at + m) identical(list[i - at], get_child(t, i), true);
            else { CHECK(get_child(t, i) == kept[i - m + 1], "trees: replacing by a list: child lost"); identical(get_child(t, i), get_child(o, i - m + 1), true); }
        }
        if (m > 1) symx_reach("list");
        for (unsigned i = 0; i < m; i++) free_tree((Node *)list[i]);
        free_tree(o);
        Node *r = malloc_constant_node(1, 1);
        tree_replace(&t, r);
        CHECK(t == r, "trees: replacing");
        free_tree(t);
    }
    CHECK(symx_live_heap() == live, "trees: memory is not released");
}
