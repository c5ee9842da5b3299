/* C16: applying rule sets, step by step against the definition. */
#include "ref_match.h"
#include "context.h"
#include "parser.h"
#include "rewrite_rule.h"
#include "rule_parsing.h"
#include "linked_list.h"
#include "iterator.h"
static ParsingContext ctx;
static RewriteRule rules[4];
static unsigned nrules;
/* rules that make trees smaller first */
static const char *const pool[] = {
    "a+0 -> a", "a+b -> b", "-(-a) -> a", "sum([x,a,[y) -> sum([x,[y)", "sum() -> 0", "sum([x) -> 2", "a+b -> a WHERE holds(1,a,b)", "sum(a,[x) -> a WHERE holds(0,[x)", "-a -> a WHERE holds(2,a)", "sum(a,a,[x) -> sum(a,[x)",
    /* others */
    "a+b -> b+a", "a -> -a", "1 -> 2", "2 -> 1", "-a -> a+1 WHERE holds(2,a)", "sum(a,[x) -> a+sum([x)", "a+a -> sum(a,a)", "sum([x,a,[y,a,[z) -> sum(a,sum([x),sum([y),sum([z))", "a+b -> sum(a,b) WHERE holds(1,a,b) ; holds(2,a)", "sum(sum([x),[y) -> sum([x,[y)",
};
#define SHRINKING 10
#define POOL (sizeof pool / sizeof *pool)
static void conditions_of(const RewriteRule *r)
{
    ncons = 0;
    for (size_t i = 0; i < MAX_MAPPED_VARS; i++) for (size_t k = 0; k < r->pattern.num_constraints[i]; k++) cons[ncons++] = r->pattern.constraints[i][k];
}
/* is t what the right side says under the current bindings? */
static bool instance(const Node **p, size_t np, const Node **t, size_t nt)
{
    size_t k = 0;
    for (size_t i = 0; i < np; i++)
    {
        if (get_type(p[i]) == NTYPE_VARIABLE)
        {
            Bind *b = &env[var_of(get_var_name(p[i]))];
            for (size_t q = 0; q < b->n; q++, k++) if (k >= nt || !unchanged(b->nodes[q], t[k])) return false;
            continue;
        }
        if (k >= nt || get_type(p[i]) != get_type(t[k])) return false;
        if (get_type(p[i]) == NTYPE_CONSTANT) { if (get_const_value(p[i]) != get_const_value(t[k])) return false; }
        else if (get_op(p[i]) != get_op(t[k]) || !instance(kids(p[i]), get_num_children(p[i]), kids(t[k]), get_num_children(t[k]))) return false;
        k++;
    }
    return k == nt;
}
static const Node *rhs, *result; static bool is_instance;
static void check_instance(void) { if (!is_instance) is_instance = instance(&rhs, 1, &result, 1); }
static bool became(const Node *before, const Node *after, const Node *where, const RewriteRule *r)
{
    if (before == where)
    {
        rhs = r->after; result = after; is_instance = false;
        on_solution = check_instance;
        reference(r->pattern.pattern, before);
        on_solution = NULL;
        return is_instance;
    }
    if (get_type(before) != get_type(after)) return false;
    if (get_type(before) != NTYPE_OPERATOR) return unchanged(before, after);
    if (get_op(before) != get_op(after) || get_num_children(before) != get_num_children(after)) return false;
    for (size_t i = 0; i < get_num_children(before); i++) if (!became(get_child(before, i), get_child(after, i), where, r)) return false;
    return true;
}
/* which rule has to be applied, and where? */
static int next_rule(const Node *t, const Node **where)
{
    for (unsigned i = 0; i < nrules; i++)
    {
        conditions_of(&rules[i]);
        *where = outermost(rules[i].pattern.pattern, t);
        if (*where) return i;
    }
    return -1;
}
static void add_operators(void)
{
    ctx = ctx_create();
    op_sum = ctx_add_op(&ctx, op_get_function("sum", OP_DYNAMIC_ARITY));
    op_plus = ctx_add_op(&ctx, op_get_infix("+", 2, OP_ASSOC_LEFT));
    op_minus = ctx_add_op(&ctx, op_get_prefix("-", 6));
    op_holds = ctx_add_op(&ctx, op_get_function("holds", OP_DYNAMIC_ARITY));
}
static size_t count_nodes(const Node *t) { size_t n = 1; if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) n += count_nodes(get_child(t, i)); return n; }
static void sets(void)
{
    uint64_t live = symx_live_heap();
    bool shrinking = true;
    Vector set = get_empty_ruleset();
    LinkedList list = list_create(sizeof(RewriteRule));
    for (nrules = 0; nrules < RULES; nrules++)
    {
        unsigned k = symx_choose("rule", POOL);
        if (k >= SHRINKING) shrinking = false;
        bool ok = parse_rule(pool[k], &ctx, &rules[nrules]);
        CHECK(ok, "rules: rule refused");
        add_to_ruleset(&set, rules[nrules]);
        list_append(&list, &rules[nrules]);
    }
    budget = TBUDGET; maxch = TCH;
    Node *t = inner(tree_leaf, TBUDGET > 0);
    unsigned c = 1 + symx_choose("cap", shrinking ? CAP + 1 : CAP);
    size_t cap = c == CAP + 1 ? SIZE_MAX : c;
    bool aslist = symx_choose("list", 2);
    Node *single = tree_copy(t);
    size_t steps = 0;
    while (steps < cap)
    {
        const Node *where;
        int r = next_rule(single, &where);
        Node *before = tree_copy(single);
        size_t n = apply_ruleset(&single, &set, checker, 1);
        CHECK(n == (r >= 0), "rules: number of applications is wrong");
        if (r < 0) CHECK(unchanged(before, single), "rules: tree changed without an application");
        else
        {
            r = next_rule(before, &where);
            CHECK(became(before, single, where, &rules[r]), "rules: wrong rule, wrong place or wrong result");
        }
        free_tree(before);
        if (r < 0) break;
        steps++;
    }
    /* all at once is the same as one by one */
    LinkedListIterator lit = list_get_iterator(&list);
    size_t n = aslist ? apply_ruleset_by_iterator(&t, (Iterator *)&lit, checker, cap) : apply_ruleset(&t, &set, checker, cap);
    CHECK(n == steps, "rules: number of applications is wrong");
    CHECK(unchanged(t, single), "rules: does not continue as it should");
    if (steps >= 2) symx_reach("several steps");
    if (steps == 0) symx_reach("no step");
    if (steps == cap) symx_reach("cap");
    symx_observe(n);
    free_tree(t);
    free_tree(single);
    list_destroy(&list);
    free_ruleset(&set);
    CHECK(symx_live_heap() == live, "rules: memory not released");
}
static bool uses_var(const Node *t, const char *name)
{
    if (get_type(t) == NTYPE_VARIABLE) return strcmp(get_var_name(t), name) == 0;
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) if (uses_var(get_child(t, i), name)) return true;
    return false;
}
static bool bound(const Node *p, const Node *t)
{
    if (get_type(t) == NTYPE_VARIABLE) return uses_var(p, get_var_name(t));
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) if (!bound(p, get_child(t, i))) return false;
    return true;
}
static Node *rhs_leaf(void)
{
    unsigned k = symx_choose("right leaf", 5);
    if (k == 0) return malloc_constant_node(2, 0);
    return malloc_variable_node(vn[k - 1], 0, 0);
}
static void single(void)
{
    uint64_t live = symx_live_heap();
    budget = PBUDGET; maxch = PCH;
    Node *p = inner(pattern_leaf, PBUDGET > 0);
    budget = RBUDGET; maxch = RCH;
    Node *r = inner(rhs_leaf, RBUDGET > 0);
    Pattern pat;
    int err = get_pattern(p, 0, NULL, &pat);
    CHECK(err == 0, "rules: pattern refused");
    bool ok = get_rule(pat, r, &rules[0]);
    CHECK(ok == bound(p, r), "rules: right side has variables the left one lacks, or is refused");
    if (!ok) { free_tree(p); free_tree(r); symx_reach("unbound"); return; }
    nrules = 1;
    budget = TBUDGET; maxch = TCH;
    Node *t = inner(tree_leaf, TBUDGET > 0), *before = tree_copy(t);
    size_t tok = symx_range("token", 0, 9);
    set_token_index(t, tok);
    const Node *where;
    bool applies = next_rule(before, &where) >= 0;
    bool applied = apply_rule(&t, &rules[0], checker);
    CHECK(applied == applies, "rules: a rule that matches is not applied, or the other way round");
    if (applied) { CHECK(became(before, t, where, &rules[0]), "rules: wrong place or wrong result"); symx_reach("applied"); }
    else { CHECK(unchanged(before, t), "rules: tree changed without an application"); symx_reach("not applied"); }
    CHECK(!applied || where != before || get_token_index(t) == tok || get_type(r) == NTYPE_VARIABLE, "rules: error position is lost");
    free_tree(t);
    free_tree(before);
    free_rule(&rules[0]);
    CHECK(symx_live_heap() == live, "rules: memory not released");
}
void symx_main(void)
{
    symx_budget(6000000);
    add_operators();
    if (MODE == 0) sets(); else single();
    ctx_destroy(&ctx);
}
