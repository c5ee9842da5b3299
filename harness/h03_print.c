/* C03: printing a tree and parsing the text gives the same tree. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "parser.h"
#include "context.h"
#include "tree_to_string.h"
#include "tree_util.h"
#include "string_builder.h"
#include "arith_context.h"
static ParsingContext *ctx;
static int budget;
#if MODE == 0
static ParsingContext own;
static Precedence prec(const char *n) { return (Precedence)symx_range(n, 0, 254); }
static void add(Operator op) { symx_assume(ctx_add_op(&own, op) != NULL); }
static OpAssociativity assoc(Precedence p, unsigned flip) { return ((p ^ flip) & 1) ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT; }
static void setup(void)
{
    own = ctx_create();
    unsigned flip = symx_range("assoc", 0, 1);
    Precedence p = prec("prec+"), q = prec("prec*");
    add(op_get_infix("+", p, assoc(p, flip)));
    add(op_get_infix("*", q, assoc(q, flip)));
    add(op_get_prefix("-", prec("prec-")));
    add(op_get_prefix("+", prec("precplus")));
    add(op_get_postfix("!", prec("prec!")));
    add(op_get_postfix("'", prec("prec'")));
    add(op_get_function("g", OP_DYNAMIC_ARITY));
    add(op_get_constant("k"));
    if (symx_choose("glue", 2)) ctx_set_glue_op(&own, ctx_lookup_op(&own, "*", OP_PLACE_INFIX));
    ctx = &own;
}
static const struct { const char *n; OpPlacement p; int ch; } ops[] = {
    {"+", OP_PLACE_INFIX, 2}, {"*", OP_PLACE_INFIX, 2}, {"-", OP_PLACE_PREFIX, 1}, {"+", OP_PLACE_PREFIX, 1},
    {"!", OP_PLACE_POSTFIX, 1}, {"'", OP_PLACE_POSTFIX, 1}, {"g", OP_PLACE_FUNCTION, 1}, {"g", OP_PLACE_FUNCTION, 0}, {"g", OP_PLACE_FUNCTION, 2}};
#elif MODE == 2
/* operators of all kinds of signs, each of them as prefix, infix and postfix operator */
static ParsingContext own;
static const char *const sign[] = {"%", "#", "&&", "%%", ";", "|", "%s", "<=", "\\", "%n", "!?!", "%5.1f", "\"", ":", "%c%c", "not", "?", "bar", "<", "mod", "@"};
static struct { const char *n; OpPlacement p; int ch; } ops[] = {
    {"", OP_PLACE_PREFIX, 1}, {"", OP_PLACE_INFIX, 2}, {"", OP_PLACE_POSTFIX, 1}, {"g", OP_PLACE_FUNCTION, 2}};
static void setup(void)
{
    own = ctx_create();
    unsigned k = symx_choose("names", sizeof sign / sizeof *sign - 2);
    for (unsigned i = 0; i < 3; i++) ops[i].n = sign[k + i];
    ctx_add_op(&own, op_get_prefix(ops[0].n, 4));
    ctx_add_op(&own, op_get_infix(ops[1].n, 2, OP_ASSOC_LEFT));
    ctx_add_op(&own, op_get_postfix(ops[2].n, 6));
    ctx_add_op(&own, op_get_function("g", OP_DYNAMIC_ARITY));
    ctx_add_op(&own, op_get_constant("k"));
    ctx = &own;
}
#else
static void setup(void) { init_arith_ctx(); ctx = g_ctx; }
static const struct { const char *n; OpPlacement p; int ch; } ops[] = {
    {"+", OP_PLACE_INFIX, 2}, {"-", OP_PLACE_INFIX, 2}, {"*", OP_PLACE_INFIX, 2}, {"/", OP_PLACE_INFIX, 2}, {"^", OP_PLACE_INFIX, 2}, {"C", OP_PLACE_INFIX, 2}, {"mod", OP_PLACE_INFIX, 2},
    {"$", OP_PLACE_PREFIX, 1}, {"@", OP_PLACE_PREFIX, 1}, {"+", OP_PLACE_PREFIX, 1}, {"-", OP_PLACE_PREFIX, 1},
    {"!", OP_PLACE_POSTFIX, 1}, {"'", OP_PLACE_POSTFIX, 1}, {"%", OP_PLACE_POSTFIX, 1},
    {"sin", OP_PLACE_FUNCTION, 1}, {"root", OP_PLACE_FUNCTION, 2}, {"max", OP_PLACE_FUNCTION, 0}, {"sum", OP_PLACE_FUNCTION, 3}};
#endif
#define NOPS (sizeof ops / sizeof ops[0])
static Node *leaf(void)
{
#if MODE != 1
    switch (symx_choose("leaf", 3))
#else
    switch (symx_choose("leaf", LEAVES))
#endif
    {
        case 0: return malloc_variable_node("x", 0, 0);
        case 1: return malloc_constant_node(2.5, 0);
        case 2: return malloc_operator_node(ctx_lookup_op(ctx, MODE != 1 ? "k" : "pi", OP_PLACE_FUNCTION), 0, 0);
        case 3: return malloc_variable_node("Long_name", 0, 0);
        case 4: return malloc_constant_node(0, 0);
        case 5: return malloc_constant_node(1234567.125, 0);
        default: return malloc_constant_node(0.0625, 0);
    }
}
static Node *gen(void)
{
    if (budget == 0 || !symx_choose("inner", 2)) return leaf();
    budget--;
    unsigned k = symx_choose("operator", NOPS);
    const Operator *op = ctx_lookup_op(ctx, ops[k].n, ops[k].p);
    Node *n = malloc_operator_node(op, ops[k].ch, 0);
    for (int i = 0; i < ops[k].ch; i++) set_child(n, i, gen());
    return n;
}
static void plain(const char *c, char *out)
{
    while (*c)
    {
        if (*c == 27) { while (*c && *c != 'm') c++; if (*c) c++; continue; }
        *out++ = *c++;
    }
    *out = 0;
}
void symx_main(void)
{
    symx_budget(3000000);
    setup();
    budget = BUDGET;
    uint64_t live = symx_live_heap();
    Node *t = gen();
    char *s = tree_to_str(t, false);
    Node *back = parse_easy(ctx, s);
    CHECK(back != NULL, "printing: the printed text is no expression");
    CHECK(tree_equals(t, back), "printing: the printed text means another tree");
    /* the other ways of printing */
    char *c = tree_to_str(t, true);
    static char buf[2000];
    plain(c, buf);
    CHECK(strcmp(buf, s) == 0, "printing: coloured text differs");
    StringBuilder b = strbuilder_create(1);
    tree_append_to_strbuilder(&b, t, false);
    char *s2 = strbuilder_to_str(&b);
    CHECK(strcmp(s2, s) == 0, "printing: text differs when appended");
    symx_output_reset();
    print_tree(t, false);
    CHECK(strcmp(symx_stdout(), s) == 0, "printing: printed text differs");
    symx_observe(strlen(s));
    if (strlen(s) >= 8) symx_reach("longer text");
    free(s); free(c); free(s2); free_tree(t); free_tree(back);
    CHECK(symx_live_heap() == live, "printing: memory is not released");
}
