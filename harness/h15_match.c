/* C15: pattern matching against a backtracking reference. */
#include "ref_match.h"
/* does the pattern with these bindings spell exactly these trees? */
static bool spells(const Matching *m, const Node **p, size_t np, const Node **t, size_t nt)
{
    size_t k = 0;
    for (size_t i = 0; i < np; i++)
    {
        if (get_type(p[i]) == NTYPE_VARIABLE)
        {
            const NodeList *l = &m->mapped_nodes[get_id(p[i])];
            if (get_var_name(p[i])[0] != '[' && l->size != 1) return false;
            for (size_t q = 0; q < l->size; q++, k++) if (k >= nt || !same(l->nodes[q], t[k])) return false;
            continue;
        }
        if (k >= nt || get_type(p[i]) != get_type(t[k])) return false;
        if (get_type(p[i]) == NTYPE_CONSTANT) { if (get_const_value(p[i]) != get_const_value(t[k])) return false; }
        else if (get_op(p[i]) != get_op(t[k]) || !spells(m, kids(p[i]), get_num_children(p[i]), kids(t[k]), get_num_children(t[k]))) return false;
        k++;
    }
    return k == nt;
}
static void note_bindings(const Matching *m, const Node *p)
{
    if (get_type(p) == NTYPE_VARIABLE) env[var_of(get_var_name(p))] = (Bind){true, m->mapped_nodes[get_id(p)].size, m->mapped_nodes[get_id(p)].nodes};
    else if (get_type(p) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(p); i++) note_bindings(m, get_child(p, i));
}
static void valid(const Matching *m, const Node *p, const Node *t)
{
    CHECK(spells(m, &p, 1, &t, 1), "match: bindings do not give the tree");
    note_bindings(m, p);
    CHECK(constraints_hold(), "match: a side condition does not hold");
}
static bool equal_bindings(const Matching *a, const Matching *b, size_t nvars)
{
    for (size_t i = 0; i < nvars; i++)
    {
        const NodeList *x = &a->mapped_nodes[i], *y = &b->mapped_nodes[i];
        if (x->size != y->size) return false;
        for (size_t k = 0; k < x->size; k++) if (!same(x->nodes[k], y->nodes[k])) return false;
    }
    return true;
}
static void limits(void)
{
    /* patterns of 0..12 variables; 0..4 conditions on the same variable */
    unsigned n = symx_choose("variables", 13), c = symx_choose("conditions", 5);
    static const char *const names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "[x", "[y", "k", "l"};
    uint64_t live = symx_live_heap();
    Node *p = malloc_operator_node(&ops[0], n, 0);
    for (unsigned i = 0; i < n; i++) set_child(p, i, malloc_variable_node(names[i], 0, 0));
    for (unsigned i = 0; i < c; i++)
    {
        cons[i] = malloc_operator_node(&ops[3], 2, 0);
        set_child(cons[i], 0, malloc_constant_node(0, 0));
        if (n) set_child(cons[i], 1, malloc_variable_node(names[0], 0, 0));
        else set_child(cons[i], 1, malloc_constant_node(4, 0));
    }
    Pattern pat;
    int r = get_pattern(p, c, cons, &pat);
    CHECK((r == 0) == (n <= 10 && c <= 3), "match: limits of patterns");
    CHECK(r != 0 || (n <= 10 && c <= 3), "match: pattern beyond the limits accepted");
    if (r == 0)
    {
        Node *t = malloc_operator_node(&ops[0], n, 0);
        for (unsigned i = 0; i < n; i++) set_child(t, i, malloc_variable_node(i % 2 ? "p" : "q", 0, 0));
        Matching m;
        ncons = 0;
        bool found = get_matching((const Node **)&t, &pat, checker, &m);
        CHECK(found, "match: an existing matching is not found");
        free_tree(t);
        free_pattern(&pat);
        symx_reach("found");
    }
    else { free_tree(p); for (unsigned i = 0; i < c; i++) free_tree(cons[i]); symx_reach("not found"); }
    CHECK(symx_live_heap() == live, "match: memory not released");
}
static Node *list_of(const char *what, unsigned from, unsigned to, bool variables)
{
    unsigned n = from + symx_choose(what, to - from + 1);
    Node *l = malloc_operator_node(&ops[0], n, 0);
    for (unsigned i = 0; i < n; i++)
    {
        if (variables) { unsigned w = symx_choose("item", 4); set_child(l, i, malloc_variable_node(vn[w], 0, 0)); }
        else { double d = symx_double("leaf"); symx_assume(d == d); set_child(l, i, malloc_constant_node(d, 0)); }
    }
    return l;
}
static Node *before_all(Node *first, Node *rest)
{
    Node *r = malloc_operator_node(&ops[0], get_num_children(rest) + 1, 0);
    set_child(r, 0, first);
    for (size_t i = 0; i < get_num_children(rest); i++) { set_child(r, i + 1, get_child(rest, i)); set_child(rest, i, NULL); }
    free_tree(rest);
    return r;
}
void symx_main(void)
{
    symx_budget(4000000);
    ops[0] = op_get_function("sum", OP_DYNAMIC_ARITY); ops[0].id = 3;
    ops[1] = op_get_infix("+", 2, OP_ASSOC_LEFT); ops[1].id = 4;
    ops[2] = op_get_prefix("-", 2); ops[2].id = 5;
    ops[3] = op_get_function("holds", OP_DYNAMIC_ARITY); ops[3].id = 6;
#ifdef LIMITS
    limits();
    return;
#endif
    uint64_t live = symx_live_heap();
#ifdef INSIDE
    /* a parameter list that has several matchings, followed by more parameters */
    Node *p = list_of("items", 1, PCH, true), *t = list_of("leaves", 0, TCH, false);
    Node *p2 = list_of("items", 0, INSIDE, true), *t2 = list_of("leaves", 0, INSIDE, false);
    p = before_all(p, p2); t = before_all(t, t2);
#else
    budget = PBUDGET; maxch = PCH;
    Node *p = inner(pattern_leaf, PBUDGET > 0);
    budget = TBUDGET; maxch = TCH;
    Node *t = inner(tree_leaf, TBUDGET > 0);
#endif
    /* conditions over the variables of the pattern */
    Node *handed[4];
    for (int i = 0; i < CONS; i++)
    {
        static int which[4], nwhich;
        nwhich = 0;
        for (int k = 0; k < plain; k++) which[nwhich++] = k;
        for (int k = 0; k < lists; k++) which[nwhich++] = 2 + k;
        unsigned kind = symx_choose("kind", 3);
        Node *c = malloc_operator_node(&ops[3], nwhich ? 3 : 2, 0);
        set_child(c, 0, malloc_constant_node(kind, 0));
        for (int k = 1; k < (nwhich ? 3 : 2); k++)
        {
            unsigned w = symx_choose("which", nwhich + 1);
            if (w == 0) set_child(c, k, malloc_constant_node(2, 0));
            else set_child(c, k, malloc_variable_node(vn[which[w - 1]], 0, 0));
        }
        handed[i] = c;
        cons[ncons++] = tree_copy(c);
    }
    uint64_t built = symx_live_heap();
    Pattern pat;
    int r = get_pattern(p, CONS, handed, &pat);
    CHECK(r == 0, "match: pattern refused");
    size_t want = reference(p, t);
    Node *before = tree_copy(t);
    Matching *all;
    size_t got = get_all_matchings((const Node **)&t, &pat, checker, &all);
    CHECK(!(want && !got), "match: an existing matching is not found");
    CHECK(!(got && !want), "match: a matching is reported where there is none");
    CHECK(got == want, "match: number of matchings is wrong");
    symx_observe(got);
    const char *names[MAX_MAPPED_VARS];
    size_t nvars = list_variables(p, MAX_MAPPED_VARS, names, NULL);
    for (size_t i = 0; i < got; i++)
    {
        valid(&all[i], p, t);
        for (size_t k = 0; k < i; k++) CHECK(!equal_bindings(&all[i], &all[k], nvars), "match: a matching is reported twice");
    }
    free(all);
    Matching m;
    bool found = get_matching((const Node **)&t, &pat, checker, &m);
    CHECK(found == (want > 0), "match: get_matching disagrees");
    if (found) { valid(&m, p, t); symx_reach("found"); } else symx_reach("not found");
    if (want > 1) symx_reach("several");
    CHECK(get_matching((const Node **)&t, &pat, checker, NULL) == found && get_all_matchings((const Node **)&t, &pat, checker, NULL) == want, "match: without a place for the result");
    Node **where = find_matching((const Node **)&t, &pat, checker, &m);
    const Node *should = outermost(p, t);
    CHECK((where ? *where : NULL) == should, "match: search finds another subtree");
    if (should) valid(&m, p, should);
    if (should && should != t) symx_reach("found inside");
    CHECK(unchanged(before, t), "match: the tree is changed");
    free_tree(before);
    CHECK(symx_live_heap() == built, "match: memory not released");
    free_pattern(&pat);
    free_tree(t);
    for (size_t i = 0; i < ncons; i++) free_tree(cons[i]);
    CHECK(symx_live_heap() == live, "match: pattern not released");
}
