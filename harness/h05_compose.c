/* C05: the value of an expression is the composition of its operators' values; errors surface. */
#include "ref_parse.h"
#include "ref_token.h"
#include <stdio.h>
#include "tree_util.h"
#include "arith_context.h"
#include "arith_evaluation.h"
#include "history.h"
#include "commands.h"
#ifdef RULES
#include "ruleset.inc"
#endif
#if MODE == 0
static const Operator *ops[4];          /* arities 2, 1, 0, 3 */
static int budget;
static unsigned bad[40]; static int calls; static const Operator *erring[40];
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static bool same(double x, double y) { if (bits(x) == bits(y)) return true; return x == y || (x != x && y != y); }
/* a listener made up for the check: values differ in every argument and its position */
static ListenerError listener(const Operator *op, size_t n, const double *a, double *out)
{
    CHECK(n == op->arity, "evaluation: operator gets a wrong number of arguments");
    double r = op->id + 1;
    for (size_t i = 0; i < n; i++) r = r * 0.5 + a[i];
    *out = r;
    return op->id == 1 && a[0] < 0 ? 7 : LISTENERERR_SUCCESS;     /* the unary one fails for negative arguments */
}
static Node *gen(bool vars)
{
    if (budget == 0 || !symx_choose("inner", 2))
    {
        if (vars && symx_choose("var", 2)) return malloc_variable_node("x", 0, 0);
        return malloc_constant_node(symx_double("const"), 0);
    }
    budget--;
    const Operator *op = ops[symx_choose("op", 4)];
    Node *n = malloc_operator_node(op, op->arity, 5);
    for (size_t i = 0; i < op->arity; i++) set_child(n, i, gen(vars));
    return n;
}
/* reference evaluation */
static const Node *err_at;
static int ref(const Node *t, double *out)
{
    if (get_type(t) == NTYPE_CONSTANT) { *out = get_const_value(t); return 0; }
    if (get_type(t) == NTYPE_VARIABLE) { err_at = t; return LISTENERERR_VARIABLE_ENCOUNTERED; }
    double a[3];
    for (size_t i = 0; i < get_num_children(t); i++) { int e = ref(get_child(t, i), &a[i]); if (e) return e; }
    int e = listener(get_op(t), get_num_children(t), a, out);
    if (e) err_at = t;
    return e;
}
static bool has_var(const Node *t)
{
    if (get_type(t) == NTYPE_VARIABLE) return true;
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) if (has_var(get_child(t, i))) return true;
    return false;
}
static void reduced(const Node *before, const Node *after)
{
    if (!has_var(before))
    {
        double v = 0;
        ref(before, &v);
        CHECK(get_type(after) == NTYPE_CONSTANT, "evaluation: constant subtree is left");
        CHECK(same(get_const_value(after), v), "evaluation: constant subtree reduced to a wrong value");
        return;
    }
    CHECK(get_type(after) == get_type(before), "evaluation: node lost");
    if (get_type(before) == NTYPE_VARIABLE) { CHECK(strcmp(get_var_name(before), get_var_name(after)) == 0, "evaluation: variable changed"); return; }
    CHECK(get_op(after) == get_op(before) && get_num_children(before) == get_num_children(after), "evaluation: operator changed");
    for (size_t i = 0; i < get_num_children(before); i++) reduced(get_child(before, i), get_child(after, i));
}
static int first_error(const Node *t)
{
    double d;
    if (!has_var(t)) return ref(t, &d);
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) { int e = first_error(get_child(t, i)); if (e) return e; }
    return 0;
}
static double count_children(size_t n, Node **ch) { double d = 100; for (size_t i = 0; i < n; i++) d += get_type(ch[i]) == NTYPE_CONSTANT ? 1 : 10; return d; }
static void ops_reduced(const Node *before, const Node *after, const Operator *op, bool *was)
{
    *was = false;
    if (get_type(before) != NTYPE_OPERATOR) { CHECK(tree_equals(before, after) || (get_type(after) == NTYPE_CONSTANT && get_const_value(after) != get_const_value(after)), "evaluation: leaf changed"); return; }
    if (get_op(before) == op)
    {
        double d = 100;
        for (size_t i = 0; i < get_num_children(before); i++)
        {
            const Node *c = get_child(before, i);
            d += get_type(c) == NTYPE_CONSTANT || (get_type(c) == NTYPE_OPERATOR && get_op(c) == op) ? 1 : 10;
        }
        CHECK(get_type(after) == NTYPE_CONSTANT && get_const_value(after) == d, "evaluation: operator replaced by a wrong value");
        return;
    }
    CHECK(get_type(after) == NTYPE_OPERATOR && get_op(after) == get_op(before), "evaluation: other operator changed");
    for (size_t i = 0; i < get_num_children(before); i++) ops_reduced(get_child(before, i), get_child(after, i), op, was);
}
void symx_main(void)
{
    symx_budget(3000000);
    ParsingContext ctx = ctx_create();
    ops[0] = ctx_add_op(&ctx, op_get_function("two", 2));
    ops[1] = ctx_add_op(&ctx, op_get_function("one", 1));
    ops[2] = ctx_add_op(&ctx, op_get_function("none", 0));
    ops[3] = ctx_add_op(&ctx, op_get_function("three", 3));
    uint64_t live = symx_live_heap();
    budget = BUDGET;
    unsigned what = symx_choose("what", 3);
    Node *t = gen(what != 0 || symx_choose("vars", 2));
    Node *orig = tree_copy(t);
    if (what == 0)
    {
        double v = 0, w = 0;
        const Node *en = NULL;
        int e = ref(t, &w);
        CHECK(tree_reduce(t, listener, &v, &en) == e, "evaluation: wrong error");
        if (e == 0) { CHECK(same(v, w), "evaluation: wrong value"); symx_reach("value"); }
        else { CHECK(en == err_at, "evaluation: error reported at a wrong place"); symx_reach("error"); }
        CHECK(tree_reduce(t, listener, &v, NULL) == e, "evaluation: error depends on out_errnode");
    }
    else if (what == 1)
    {
        const Node *en = NULL;
        int e = first_error(t);
        CHECK(tree_reduce_constant_subtrees(&t, listener, &en) == e, "evaluation: wrong error of constant subtrees");
        if (e == 0) { reduced(orig, t); symx_reach("reduced"); }
        else CHECK(en != NULL && get_type(en) == NTYPE_OPERATOR && get_op(en) == ops[1], "evaluation: error of a constant subtree reported at a wrong place");
    }
    else
    {
        bool was;
        const Operator *op = ops[symx_choose("which", 2)];
        tree_reduce_ops(&t, op, count_children);
        ops_reduced(orig, t, op, &was);
    }
    free_tree(t);
    free_tree(orig);
    CHECK(symx_live_heap() == live, "evaluation: memory is not released");
    ctx_destroy(&ctx);
}
#else
/* expression commands: what is printed and remembered is the composition of the operators' values */
static char text[64], work[64];
static const char *tok[64]; static char toks[64][24];
static int eval(const RNode *r, double *out)
{
    if (r->kind == NTYPE_CONSTANT) { *out = strtod(tok[r->tok], NULL); return 0; }
    if (r->kind == NTYPE_VARIABLE) return LISTENERERR_VARIABLE_ENCOUNTERED;
    double a[RP_MAXCH];
    for (size_t i = 0; i < r->n; i++) { int e = eval(r->ch[i], &a[i]); if (e) return e; }
    return arith_op_evaluate(r->op, r->n, a, out);
}
static bool vars(const RNode *r) { if (r->kind == NTYPE_VARIABLE) return true; for (size_t i = 0; i < r->n; i++) if (vars(r->ch[i])) return true; return false; }
static int const_err(const RNode *r)
{
    double d;
    if (!vars(r)) return eval(r, &d);
    for (size_t i = 0; i < r->n; i++) { int e = const_err(r->ch[i]); if (e) return e; }
    return 0;
}
static char of(const char *set)
{
    char c = (char)symx_byte("c");
    bool in = false;
    for (int i = 0; set[i]; i++) in |= c == set[i];
    symx_assume(in);
    return c;
}
void symx_main(void)
{
    symx_budget(6000000);
#ifdef RULES
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
#else
#define RULES " 2x.(),+-/^!%@'"
#endif
    init_commands();
    history_add(3);
    ParsingContext *ctx = g_ctx;
    int len = 0;
    const char *p = TEMPLATE;
    for (; *p; p++)
    {
        if (*p == '#') text[len++] = of("027");
        else if (*p == '~') text[len++] = of("+-*/^");
        else if (*p == '?') text[len++] = of(RULES);
        else text[len++] = *p;
    }
    text[len] = 0;
    LinkedListIterator it = list_get_iterator(&ctx->op_list);
    Operator *op;
    while ((op = iterator_get_next((Iterator *)&it)) != NULL) if (!rt_letter(op->name[0])) rt_kw[rt_nkw++] = op->name;
    rt_tokenize(text);
    for (size_t i = 0; i < rt_n; i++) { memcpy(toks[i], text + rt_start[i], rt_len[i]); toks[i][rt_len[i]] = 0; tok[i] = toks[i]; }
    RNode *r = rp_parse(ctx, rt_n, tok);
    double v = 0, h, h2;
    bool ok = r != NULL, has = r && vars(r);
    if (ok) ok = const_err(r) == 0;
    if (ok && !has) eval(r, &v);
    symx_output_reset();
    strcpy(work, text);
    bool res = exec_command(work);
    CHECK(res == ok, ok ? "calculating: an expression with a value is refused" : "calculating: an expression without a value succeeds");
    if (ok && !has)
    {
        char buf[64];
        snprintf(buf, sizeof buf, "%-.10g\n", v);
        CHECK(strcmp(symx_stdout(), buf) == 0, "calculating: printed result is wrong");
        CHECK(history_get(0, &h) && (h == v || (h != h && v != v)), "calculating: remembered result is wrong");
        CHECK(history_get(1, &h2) && h2 == 3 && !history_get(2, &h2), "calculating: earlier results changed");
        symx_reach("value");
    }
    else
    {
        CHECK(history_get(0, &h) && h == 3 && !history_get(1, &h), "calculating: something without a value is remembered");
        if (!ok) { CHECK(symx_stdout_len() == 0, "calculating: result printed despite of an error"); CHECK(symx_stderr_len() > 0, "calculating: error is not reported"); symx_reach("error"); }
    }
    symx_observe(res);
    unload_commands();
}
#endif
