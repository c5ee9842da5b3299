/* Reference for pattern matching: backtracking over all bindings, side conditions decided by a stand-in. */
#ifndef REF_MATCH_H
#define REF_MATCH_H
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "operator.h"
#include "node.h"
#include "tree_util.h"
#include "matching.h"
#include "transformation.h"
static Operator ops[4];     /* sum (dynamic), + (2), - (1), holds (conditions) */
static const Operator *op_sum = &ops[0], *op_plus = &ops[1], *op_minus = &ops[2], *op_holds = &ops[3];
#define NV 13
static const char *const vn[] = {"a", "b", "[x", "[y", "p", "q", "c", "d", "e", "f", "g", "h", "[z"};

/* ---- reference */
typedef struct { bool bound; size_t n; const Node **nodes; } Bind;
static Bind env[NV];
static int var_of(const char *name) { for (int i = 0; i < NV; i++) if (strcmp(vn[i], name) == 0) return i; return -1; }
static bool same(const Node *a, const Node *b);
static bool equals(const Node *a, const Node *b)
{
    if (get_type(a) != get_type(b)) return false;
    if (get_type(a) == NTYPE_CONSTANT) { if (get_const_value(a) == get_const_value(b)) return true; return false; }
    if (get_type(a) == NTYPE_VARIABLE) return strcmp(get_var_name(a), get_var_name(b)) == 0;
    if (get_op(a) != get_op(b) || get_num_children(a) != get_num_children(b)) return false;
    for (size_t i = 0; i < get_num_children(a); i++) if (!equals(get_child(a, i), get_child(b, i))) return false;
    return true;
}
/* a tree is the same as itself even if it contains NaN */
static bool same(const Node *a, const Node *b) { if (a == b) return true; return equals(a, b); }
static const Node **kids(const Node *t) { return get_num_children(t) ? (const Node **)get_child_addr(t, 0) : NULL; }
static Node *cons[4]; static size_t ncons;
/* the stand-in for side conditions: holds(r, list...): r == 0: at most one; 1: all equal; 2: the first is a number above 1 */
static bool meaning(int kind, size_t n, const Node **args)
{
    if (kind == 0) return n <= 1;
    if (kind == 1) { for (size_t i = 1; i < n; i++) if (!equals(args[0], args[i])) return false; return true; }
    if (n == 0 || get_type(args[0]) != NTYPE_CONSTANT) return false;
    if (get_const_value(args[0]) > 1) return true;
    return false;
}
static bool constraints_hold(void)
{
    for (size_t c = 0; c < ncons; c++)
    {
        const Node *args[40];
        size_t n = 0;
        for (size_t i = 1; i < get_num_children(cons[c]); i++)
        {
            const Node *k = get_child(cons[c], i);
            if (get_type(k) == NTYPE_VARIABLE) { Bind *b = &env[var_of(get_var_name(k))]; for (size_t q = 0; q < b->n; q++) args[n++] = b->nodes[q]; }
            else args[n++] = k;
        }
        if (!meaning((int)get_const_value(get_child(cons[c], 0)), n, args)) return false;
    }
    return true;
}
static bool checker(Node **t)
{
    const Node *args[40];
    size_t n = 0;
    CHECK(get_type(*t) == NTYPE_OPERATOR && get_op(*t) == op_holds, "match: condition is not passed on as written");
    for (size_t i = 1; i < get_num_children(*t); i++) args[n++] = get_child(*t, i);
    for (size_t i = 0; i < n; i++) if (get_type(args[i]) == NTYPE_VARIABLE) CHECK(get_var_name(args[i])[0] == 'p' || get_var_name(args[i])[0] == 'q', "match: condition checked before its variables are bound");
    return meaning((int)get_const_value(get_child(*t, 0)), n, args);
}
typedef struct Goal { const Node **p; size_t np; const Node **t; size_t nt; const struct Goal *next; } Goal;
static size_t solutions;
static void (*on_solution)(void);
static void solve(const Goal *g)
{
    if (g == NULL) { if (constraints_hold()) { solutions++; if (on_solution) on_solution(); } return; }
    if (g->np == 0) { if (g->nt == 0) solve(g->next); return; }
    const Node *p = g->p[0];
    if (get_type(p) == NTYPE_VARIABLE)
    {
        int v = var_of(get_var_name(p));
        bool list = get_var_name(p)[0] == '[';
        if (env[v].bound)
        {
            if (env[v].n > g->nt) return;
            for (size_t i = 0; i < env[v].n; i++) if (!equals(env[v].nodes[i], g->t[i])) return;
            Goal r = {g->p + 1, g->np - 1, g->t + env[v].n, g->nt - env[v].n, g->next};
            solve(&r);
            return;
        }
        for (size_t n = list ? 0 : 1; n <= (list ? g->nt : 1) && n <= g->nt; n++)
        {
            env[v] = (Bind){true, n, g->t};
            Goal r = {g->p + 1, g->np - 1, g->t + n, g->nt - n, g->next};
            solve(&r);
            env[v].bound = false;
        }
        return;
    }
    if (g->nt == 0) return;
    const Node *t = g->t[0];
    Goal r = {g->p + 1, g->np - 1, g->t + 1, g->nt - 1, g->next};
    if (get_type(p) != get_type(t)) return;
    if (get_type(p) == NTYPE_CONSTANT) { if (get_const_value(p) == get_const_value(t)) solve(&r); return; }
    if (get_op(p) != get_op(t)) return;
    Goal in = {kids(p), get_num_children(p), kids(t), get_num_children(t), &r};
    solve(&in);
}
static size_t reference(const Node *p, const Node *t)
{
    for (int i = 0; i < NV; i++) env[i].bound = false;
    solutions = 0;
    Goal g = {&p, 1, &t, 1, NULL};
    solve(&g);
    return solutions;
}
static const Node *outermost(const Node *p, const Node *t)
{
    if (reference(p, t)) return t;
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) { const Node *r = outermost(p, get_child(t, i)); if (r) return r; }
    return NULL;
}
static bool unchanged(const Node *a, const Node *b)
{
    if (get_type(a) != get_type(b)) return false;
    if (get_type(a) == NTYPE_CONSTANT)
    {
        double x = get_const_value(a), y = get_const_value(b);
        uint64_t p, q;
        memcpy(&p, &x, 8); memcpy(&q, &y, 8);
        return p == q;
    }
    if (get_type(a) == NTYPE_VARIABLE) return strcmp(get_var_name(a), get_var_name(b)) == 0;
    if (get_op(a) != get_op(b) || get_num_children(a) != get_num_children(b)) return false;
    for (size_t i = 0; i < get_num_children(a); i++) if (!unchanged(get_child(a, i), get_child(b, i))) return false;
    return true;
}
/* ---- generation; variables are introduced in order, which leaves out renamings only */
static int budget, maxch;
static int plain, lists, svars;
static Node *inner(Node *(*leaf)(void), bool root)
{
    bool in = root;
    if (!root && budget > 0) in = symx_choose("inner", 2);
    if (!in) return leaf();
    budget--;
    unsigned k = root && ROOTSUM ? 0 : symx_choose("op", 3), n = k == 2 ? 1 : 2;
    if (k == 0) n = symx_choose("children", maxch + 1);
    Node *t = malloc_operator_node(k == 0 ? op_sum : k == 1 ? op_plus : op_minus, n, 0);
    for (unsigned i = 0; i < n; i++) set_child(t, i, inner(leaf, false));
    return t;
}
static Node *pattern_leaf(void)
{
    unsigned np = plain < 2 ? plain + 1 : 2, nl = lists < LISTS ? lists + 1 : LISTS;
    unsigned k = symx_choose("pattern leaf", 1 + np + nl);
    if (k == 0) return malloc_constant_node(1, 0);
    if (k <= np) { if ((int)k > plain) plain = k; return malloc_variable_node(vn[k - 1], 0, 0); }
    k -= np;
    if ((int)k > lists) lists = k;
    return malloc_variable_node(vn[2 + k - 1], 0, 0);
}
static Node *tree_leaf(void)
{
    unsigned nv = svars < 2 ? svars + 1 : 2, k = symx_choose("tree leaf", 1 + nv);
    if (k == 0) return malloc_constant_node(symx_double("const"), 0);
    if ((int)k > svars) svars = k;
    return malloc_variable_node(vn[4 + k - 1], 0, 0);
}
#endif
