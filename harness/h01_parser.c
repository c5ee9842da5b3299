/* C01: the parser accepts exactly the expressions of the grammar and builds exactly their tree. */
#include "ref_parse.h"
#ifndef N
#define N 5
#endif
#if MODE == 3
/* fixed precedences, longer sequences */
static Precedence prec(const char *n) { return strchr(n, 'n') ? 5 : n[4] == '!' ? 6 : n[4] == '*' ? 4 : 2; }
#else
static Precedence prec(const char *n) { return (Precedence)symx_range(n, 0, 254); }
#endif
static ParsingContext ctx;
static void add(Operator op) { symx_assume(ctx_add_op(&ctx, op) != NULL); }
static char text[24][2]; static const char *tokens[24];
static OpAssociativity assoc(Precedence p, unsigned flip) { return ((p ^ flip) & 1) ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT; }
/* binary + * (also: postfix *), prefix and binary -, postfix !, functions f(2) g(any) k(0) */
static void make_ctx(void)
{
    ctx = ctx_create();
#if MODE == 3
    unsigned flip = 1;
#else
    unsigned flip = symx_range("assoc", 0, 1);
#endif
    Precedence p = prec("prec+"), q = prec("prec*"), r = prec("prec-");
    /* operators of one precedence have one associativity (ctx_add_op insists, C11) */
    add(op_get_infix("+", p, assoc(p, flip)));
    add(op_get_infix("*", q, assoc(q, flip)));
    add(op_get_infix("-", r, assoc(r, flip)));
    add(op_get_prefix("-", prec("prec neg")));
    add(op_get_postfix("!", prec("prec!")));
    add(op_get_function("f", 2));
    add(op_get_function("g", OP_DYNAMIC_ARITY));
    add(op_get_constant("k"));
    unsigned gl = symx_choose("glue", GLUES);
    if (gl) ctx_set_glue_op(&ctx, ctx_lookup_op(&ctx, gl == 1 ? "*" : "g", gl == 1 ? OP_PLACE_INFIX : OP_PLACE_FUNCTION));
}
static char pick(const char *set)
{
    int n = strlen(set);
    char c = (char)symx_byte("token");
    bool in = false;
    for (int i = 0; i < n; i++) in |= (c == set[i]);
    symx_assume(in);
    return c;
}
void symx_main(void)
{
    symx_budget(2000000);
    make_ctx();
    size_t n = 0;
#define TOK(c) do { text[n][0] = (c); text[n][1] = 0; tokens[n] = text[n]; n++; } while (0)
#if MODE == 0
    /* any token sequence */
    size_t len = symx_choose("tokens", N + 1);
    for (size_t i = 0; i < len; i++) TOK(pick(SET));
#elif MODE == 3
    for (size_t i = 0; i < N; i++) TOK(pick(SET));
#elif MODE == 1
    /* long operator chains: x op x op x ..., each operand optionally with prefix and postfix operators */
    for (size_t i = 0; i < N; i++)
    {
        if (i) TOK(pick("+*-"));
        if (UNARY && symx_range("neg", 0, 1)) TOK('-');
        TOK('x');
        if (UNARY && symx_range("fac", 0, 1)) TOK('!');
    }
#elif MODE == 2
    /* deep nesting and long parameter lists beyond the initial stack sizes */
    size_t depth = symx_choose("depth", 4) * 5, args = symx_choose("args", 3) * 6;
    unsigned kind = symx_choose("kind", 3);
    static char big[80][2]; static const char *bt[80];
#undef TOK
#define TOK(c) do { big[n][0] = (c); big[n][1] = 0; bt[n] = big[n]; n++; } while (0)
    for (size_t i = 0; i < depth; i++) { if (kind == 0) TOK('-'); else if (kind == 1) TOK('('); else { TOK('g'); TOK('('); } }
    if (args) { TOK('g'); TOK('('); }
    TOK('x');
    for (size_t i = 1; i < args; i++) { TOK(','); TOK(i == 3 ? pick("xk1") : 'x'); }
    if (args) TOK(')');
    if (kind) for (size_t i = 0; i < depth - (depth && symx_range("missing", 0, 1)); i++) TOK(')');
    TOK(pick("+*-!)x")); TOK(pick("x)k"));
    rp_check(&ctx, n, bt);
    ctx_destroy(&ctx);
    return;
#endif
    if (rp_check(&ctx, n, tokens) && n > 4) symx_reach("accepted long");
    /* only checking whether an error occurs */
    CHECK((parse_tokens(&ctx, n, tokens, NULL, NULL) == PERR_SUCCESS) == (rp_parse(&ctx, n, tokens) != NULL), "parser: verdict depends on whether the tree is wanted");
    ctx_destroy(&ctx);
}
