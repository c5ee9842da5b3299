/* C23: side conditions of rules. */
#include "ref_parse.h"
#include "ref_token.h"
#include <math.h>
#include "tree_util.h"
#include "commands.h"
#include "arith_context.h"
#include "propositional_context.h"
#include "propositional_evaluation.h"
#include "rewrite_rule.h"
#include "rule_parsing.h"
#ifndef BUDGET
#define BUDGET 0
#endif
#ifndef SMALL
#define SMALL 0
#endif
#ifndef TERMS
#define TERMS 1
#define OPERANDS 1
#endif
#ifndef CONDS
#define CONDS 1
#endif
/* reference: false if the condition cannot be decided. Operators are known by their names */
static bool eq(const Node *a, const Node *b)
{
    if (get_type(a) != get_type(b)) return false;
    if (get_type(a) == NTYPE_CONSTANT) { if (get_const_value(a) == get_const_value(b)) return true; return false; }
    if (get_type(a) == NTYPE_VARIABLE) return strcmp(get_var_name(a), get_var_name(b)) == 0;
    if (get_op(a) != get_op(b) || get_num_children(a) != get_num_children(b)) return false;
    for (size_t i = 0; i < get_num_children(a); i++) if (!eq(get_child(a, i), get_child(b, i))) return false;
    return true;
}
static bool is(const Operator *op, const char *name) { return strcmp(op->name, name) == 0; }
static bool meaning(const Node *t, double *v)
{
    if (get_type(t) == NTYPE_CONSTANT) { *v = get_const_value(t); return true; }
    if (get_type(t) == NTYPE_VARIABLE) return false;
    const Operator *op = get_op(t);
    size_t n = get_num_children(t);
    if (is(op, "type") && n == 1) { int k = get_type(get_child(t, 0)); *v = k == NTYPE_CONSTANT ? 2 : k == NTYPE_VARIABLE ? 3 : 4; return true; }
    if (is(op, "equal") && n == 2) { *v = eq(get_child(t, 0), get_child(t, 1)); return true; }
    if (is(op, "CONST")) { *v = 2; return true; }
    if (is(op, "VAR")) { *v = 3; return true; }
    if (is(op, "OP")) { *v = 4; return true; }
    if (is(op, "TRUE")) { *v = 1; return true; }
    if (is(op, "FALSE")) { *v = 0; return true; }
    double a = 0, b = 0;
    if (n > 0 && !meaning(get_child(t, 0), &a)) return false;
    if (n > 1 && !meaning(get_child(t, 1), &b)) return false;
    if (is(op, "==")) *v = a == b;
    else if (is(op, "!=")) *v = a != b;
    else if (is(op, "<")) *v = a < b;
    else if (is(op, ">")) *v = a > b;
    else if (is(op, "<=")) *v = a <= b;
    else if (is(op, ">=")) *v = a >= b;
    else if (is(op, "||")) *v = a != 0 || b != 0;
    else if (is(op, "!") && op->placement == OP_PLACE_PREFIX) *v = a == 0;
    else if (is(op, "-") && n == 2) *v = a - b;
    else if (is(op, "-")) *v = -a;
    else if (is(op, "+") && n == 2) *v = a + b;
    else if (is(op, "*")) *v = a * b;
    else if (is(op, "/")) { if (b == 0) return false; *v = a / b; }
    else return false;          /* count and everything else */
    return true;
}
static bool satisfied(const Node *t)
{
    double v;
    if (!meaning(t, &v)) return false;
    if (v != 0) return true;
    return false;
}
static double number(void) {
    if (SMALL) { int k = symx_choose("small", 2); return 2 * k; }
    double d = symx_double("number"); symx_assume(d >= -1e6 && d <= 1e6); return d; }
static const Operator *find(const char *name, OpPlacement p) { const Operator *o = ctx_lookup_op(g_propositional_ctx, name, p); CHECK(o != NULL, "conditions: operator missing"); return o; }
static Node *mk(const Operator *op, Node *a, Node *b)
{
    Node *t = malloc_operator_node(op, b ? 2 : a ? 1 : 0, 0);
    if (a) set_child(t, 0, a);
    if (b) set_child(t, 1, b);
    return t;
}
static int budget;
static Node *arith(bool deep)
{
    unsigned k = symx_choose("arith", deep ? 7 : 2);
    if (k == 0) return malloc_constant_node(number(), 0);
    if (k <= 2) return malloc_variable_node(k == 1 ? "x" : "y", 0, 0);
    if (k == 3) return mk(find("-", OP_PLACE_PREFIX), arith(false), NULL);
    Node *l = arith(false), *r = arith(false);
    if (k == 6) return mk(find("sum", OP_PLACE_FUNCTION), l, r);
    return mk(find(k == 4 ? "+" : "/", OP_PLACE_INFIX), l, r);
}
static Node *cond(void)
{
    static const char *const infix[] = {"!", "==", "!=", "<", ">", "<=", ">=", "||", "+", "-", "/"};
    static const char *const names[] = {"VAR", "TRUE", "FALSE", "CONST", "OP"};
    const bool deep = BUDGET == 0;
    unsigned k = symx_choose("kind", budget > 0 ? 7 : SMALL ? 5 : 6);
    if (k == 0) return malloc_constant_node(number(), 0);
    if (k == 1) return malloc_variable_node("x", 0, 0);
    if (k == 2) return mk(find(names[symx_choose("name", deep ? 5 : 3)], OP_PLACE_FUNCTION), NULL, NULL);
    if (k == 3) return mk(find("type", OP_PLACE_FUNCTION), arith(deep), NULL);
    if (k <= 5)
    {
        Node *a = arith(deep), *b = arith(deep);
        return mk(find(k == 4 ? "equal" : "count", OP_PLACE_FUNCTION), a, b);
    }
    budget--;
    unsigned o = symx_choose("operator", SMALL ? 11 : 8);
    Node *a = cond();
    if (o == 0) return mk(find("!", OP_PLACE_PREFIX), a, NULL);
    Node *b = cond();
    return mk(find(infix[o], OP_PLACE_INFIX), a, b);
}
static bool truth;
static void trees(void)
{
    uint64_t live = symx_live_heap();
    budget = BUDGET;
    Node *t = cond();
    truth = satisfied(t);
    bool got = propositional_checker(&t);
    if (truth) { CHECK(got, "conditions: a true condition does not count"); symx_reach("true"); }
    else { CHECK(!got, "conditions: a false or undecidable condition counts"); symx_reach("not true"); }
    free_tree(t);
    CHECK(symx_live_heap() == live, "conditions: memory not released");
}
/* ---- as written: || below comparisons below arithmetic below ! */
static int level_of(const char *op) { return strcmp(op, "||") == 0 ? 0 : strcmp(op, "+") == 0 || strcmp(op, "-") == 0 ? 2 : 1; }
static void texts(void)
{
    static const char *const operands[] = {"0", "2", "x", "type(x)", "1", "TRUE", "FALSE", "VAR"};
    static const double values[] = {0, 2, NAN, 3, 1, 1, 0, 3};
    static const char *const infix[] = {"==", "!=", "<", ">", "<=", ">=", "||", "+", "-"};
    char text[80] = "";
    double val[4];
    bool def[4];
    const char *op[4];
    for (int i = 0; i < TERMS; i++)
    {
        if (i)
        {
            op[i] = infix[symx_choose("operator", 9)];
            strcat(text, " "); strcat(text, op[i]); strcat(text, " ");
        }
        unsigned k = symx_choose("operand", OPERANDS);
        bool neg = i == 1 && symx_choose("not", 2);
        if (neg) strcat(text, "!");
        strcat(text, operands[k]);
        def[i] = k != 2;
        val[i] = neg ? values[k] == 0 : values[k];
    }
    /* fold the strongest operators first, each level from the left */
    int n = TERMS;
    for (int lev = 2; lev >= 0; lev--)
        for (int i = 1; i < n; )
        {
            if (level_of(op[i]) != lev) { i++; continue; }
            double a = val[i - 1], b = val[i], v;
            const char *o = op[i];
            if (strcmp(o, "==") == 0) v = a == b;
            else if (strcmp(o, "!=") == 0) v = a != b;
            else if (strcmp(o, "<") == 0) v = a < b;
            else if (strcmp(o, ">") == 0) v = a > b;
            else if (strcmp(o, "<=") == 0) v = a <= b;
            else if (strcmp(o, ">=") == 0) v = a >= b;
            else if (strcmp(o, "||") == 0) v = a != 0 || b != 0;
            else if (strcmp(o, "+") == 0) v = a + b;
            else v = a - b;
            val[i - 1] = v;
            def[i - 1] = def[i - 1] && def[i];
            for (int k = i; k + 1 < n; k++) { val[k] = val[k + 1]; def[k] = def[k + 1]; op[k] = op[k + 1]; }
            n--;
        }
    truth = def[0] && val[0] != 0;
    Node *t = parse_easy(g_propositional_ctx, text);
    CHECK(t != NULL, "conditions: not understood");
    bool got = propositional_checker(&t);
    symx_observe(got);
    if (truth) { CHECK(got, "conditions: a true condition does not count"); symx_reach("true"); }
    else { CHECK(!got, "conditions: a false or undecidable condition counts"); symx_reach("not true"); }
    free_tree(t);
}
/* ---- a rule with conditions */
static Node *operand(void)
{
    unsigned k = symx_choose("operand", 4);
    if (k == 0) return malloc_constant_node(number(), 0);
    if (k == 1) return malloc_variable_node("u", 0, 0);
    if (k == 2) return malloc_variable_node("v", 0, 0);
    return mk(ctx_lookup_op(g_ctx, "-", OP_PLACE_PREFIX), malloc_variable_node("u", 0, 0), NULL);
}
static bool holds(unsigned k, const Node *a, const Node *b)
{
    bool ca = get_type(a) == NTYPE_CONSTANT, cb = get_type(b) == NTYPE_CONSTANT;
    double x = ca ? get_const_value(a) : 0, y = cb ? get_const_value(b) : 0;
    bool r = false;
    if (k == 0) r = true;
    else if (k == 1) r = ca;
    else if (k == 2) r = get_type(b) != NTYPE_VARIABLE;
    else if (k == 3) r = eq(a, b);
    else if (k == 4) r = ca && cb && x < y;
    else if (k == 5) r = ca && !(x == 2);
    else if (k == 6) r = ca && cb && (x > 1 || y > 1);
    else if (k == 7) r = !eq(a, b) || cb;
    else if (k == 8) r = get_type(b) == get_type(a);
    else if (k == 9) r = get_type(a) == NTYPE_OPERATOR;
    if (r) return true;
    return false;
}
static void rules(void)
{
    static const char *const texts[] = {"TRUE", "type(a) == CONST", "type(b) != VAR", "equal(a, b)", "a < b", "!(a == 2)", "a > 1 || b > 1", "!equal(a, b) || type(b) == CONST", "type(b) == type(a)", "type(a) == OP"};
    char text[200] = "a + b -> a * b";
    unsigned k[3];
    unsigned n = symx_choose("conditions", CONDS + 1);
    for (unsigned i = 0; i < n; i++)
    {
        strcat(text, i ? " ; " : " WHERE ");
        k[i] = symx_choose("condition", 10);
        strcat(text, texts[k[i]]);
    }
    RewriteRule rule;
    bool ok = parse_rule(text, g_propositional_ctx, &rule);
    CHECK(ok, "conditions: rule refused");
    Node *a = operand(), *b = operand();
    Node *t = mk(ctx_lookup_op(g_ctx, "+", OP_PLACE_INFIX), a, b);
    truth = true;
    for (unsigned i = 0; i < n; i++) if (!holds(k[i], a, b)) truth = false;
    Node *ka = tree_copy(a), *kb = tree_copy(b);
    ok = apply_rule(&t, &rule, propositional_checker);
    if (truth) { CHECK(ok, "conditions: the rule does not fire although all its conditions hold"); symx_reach("true"); }
    else { CHECK(!ok, "conditions: the rule fires although a condition does not hold"); symx_reach("not true"); }
    CHECK(strcmp(get_op(t)->name, ok ? "*" : "+") == 0 && get_num_children(t) == 2, "conditions: wrong result");
    CHECK(eq(get_child(t, 0), ka) && eq(get_child(t, 1), kb), "conditions: checking a condition changes the tree");
    free_tree(t); free_tree(ka); free_tree(kb);
    free_rule(&rule);
}
void symx_main(void)
{
    symx_budget(4000000);
    init_commands();
    symx_budget(4000000);
    if (MODE == 0) trees();
    else if (MODE == 1) texts();
    else rules();
}
