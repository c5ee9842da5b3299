/* Reference grammar: precedence climbing over tokens. Deciding what a token names goes through ctx_lookup_op (decided by C11). */
#ifndef REF_PARSE_H
#define REF_PARSE_H
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "parser.h"
#include "context.h"
#include "node.h"
#define RP_MAXCH 16
typedef struct RNode { int kind; const Operator *op; size_t tok; size_t n; struct RNode *ch[RP_MAXCH]; } RNode;
#ifndef RP_MAX
#define RP_MAX 64
#endif
static RNode rp_pool[RP_MAX]; static int rp_used;
static const ParsingContext *rp_ctx; static const char **rp_tok; static size_t rp_n, rp_pos; static bool rp_err;
static RNode *rp_new(int kind, const Operator *op, size_t tok)
{
    if (rp_used == RP_MAX) symx_discard();
    RNode *r = &rp_pool[rp_used++];
    r->kind = kind; r->op = op; r->tok = tok; r->n = 0;
    return r;
}
static void rp_add(RNode *p, RNode *c) { if (p->n == RP_MAXCH) symx_discard(); p->ch[p->n++] = c; }
static bool rp_is(const char *t, char c) { return t[0] == c && t[1] == 0; }
static bool rp_open(const char *t) { return rp_is(t, '(') || rp_is(t, '{'); }
static bool rp_close(const char *t) { return rp_is(t, ')') || rp_is(t, '}'); }
static bool rp_delim(const char *t) { return rp_is(t, ','); }
static bool rp_letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'; }
static void rp_skip(void) { while (rp_pos < rp_n && rp_tok[rp_pos][0] == ' ') rp_pos++; }
static bool rp_pops(const Operator *m, const Operator *top)
{
    if (top == NULL) return false;
    return m->precedence < top->precedence || (m->precedence == top->precedence && m->assoc == OP_ASSOC_LEFT);
}
static RNode *rp_expr(const Operator *top)
{
    RNode *left;
    rp_skip();
    if (rp_pos == rp_n) { rp_err = true; return NULL; }
    const char *t = rp_tok[rp_pos];
    if (rp_open(t))
    {
        rp_pos++;
        left = rp_expr(NULL);
        if (rp_err) return NULL;
        if (rp_pos == rp_n || !rp_close(rp_tok[rp_pos])) { rp_err = true; return NULL; }
        rp_pos++;
    }
    else if (rp_close(t) || rp_delim(t)) { rp_err = true; return NULL; }
    else
    {
        const Operator *op = ctx_lookup_op(rp_ctx, t, OP_PLACE_FUNCTION);
        size_t at = rp_pos;
        if (op != NULL)
        {
            rp_pos++;
            left = rp_new(NTYPE_OPERATOR, op, at);
            if (op->arity != 0)
            {
                rp_skip();
                if (rp_pos == rp_n || !rp_open(rp_tok[rp_pos])) { rp_err = true; return NULL; }
                rp_pos++;
                rp_skip();
                if (rp_pos < rp_n && rp_close(rp_tok[rp_pos])) rp_pos++;
                else for (;;)
                {
                    RNode *a = rp_expr(NULL);
                    if (rp_err) return NULL;
                    rp_add(left, a);
                    if (rp_pos == rp_n) { rp_err = true; return NULL; }
                    const char *d = rp_tok[rp_pos++];
                    if (rp_close(d)) break;
                    /* rp_expr stops at nothing else but a delimiter here */
                }
                if (op->arity != OP_DYNAMIC_ARITY && op->arity != left->n) { rp_err = true; return NULL; }
            }
        }
        else if ((op = ctx_lookup_op(rp_ctx, t, OP_PLACE_PREFIX)) != NULL)
        {
            rp_pos++;
            left = rp_new(NTYPE_OPERATOR, op, at);
            RNode *a = rp_expr(op);
            if (rp_err) return NULL;
            rp_add(left, a);
        }
        else
        {
            char *end;
            strtod(t, &end);
            if (*end == 0) left = rp_new(NTYPE_CONSTANT, NULL, at);
            else
            {
                if (ctx_lookup_op(rp_ctx, t, OP_PLACE_INFIX) || ctx_lookup_op(rp_ctx, t, OP_PLACE_POSTFIX) || !rp_letter(t[0])) { rp_err = true; return NULL; }
                left = rp_new(NTYPE_VARIABLE, NULL, at);
            }
            rp_pos++;
        }
    }
    for (;;)
    {
        rp_skip();
        if (rp_pos == rp_n) return left;
        t = rp_tok[rp_pos];
        if (rp_close(t) || rp_delim(t)) return left;
        size_t at = rp_pos;
        bool glued = false;
        const Operator *m = rp_open(t) ? NULL : ctx_lookup_op(rp_ctx, t, OP_PLACE_INFIX);
        if (m == NULL && !rp_open(t)) m = ctx_lookup_op(rp_ctx, t, OP_PLACE_POSTFIX);
        if (m == NULL)
        {
            m = rp_ctx->glue_op;
            if (m == NULL) { rp_err = true; return NULL; }
            glued = true;
        }
        if (rp_pops(m, top)) return left;
        if (!glued) rp_pos++;
        RNode *r = rp_new(NTYPE_OPERATOR, m, at);
        rp_add(r, left);
        if (m->placement != OP_PLACE_POSTFIX)
        {
            RNode *b = rp_expr(m);
            if (rp_err) return NULL;
            rp_add(r, b);
        }
        left = r;
    }
}
/* NULL: not an expression */
static RNode *rp_parse(const ParsingContext *ctx, size_t n, const char **tokens)
{
    rp_used = 0; rp_err = false; rp_ctx = ctx; rp_tok = tokens; rp_n = n; rp_pos = 0;
    RNode *r = rp_expr(NULL);
    if (rp_err || rp_pos != n) return NULL;
    return r;
}
static void rp_same(const RNode *r, const Node *t, const char **tokens)
{
    CHECK(get_type(t) == r->kind, "parser: node of a wrong kind");
    CHECK(get_token_index(t) == r->tok, "parser: node refers to a wrong token");
    if (r->kind == NTYPE_OPERATOR)
    {
        CHECK(get_op(t) == r->op, "parser: node of a wrong operator");
        CHECK(get_num_children(t) == r->n, "parser: wrong number of operands");
        for (size_t i = 0; i < r->n; i++) rp_same(r->ch[i], get_child(t, i), tokens);
    }
    else if (r->kind == NTYPE_CONSTANT)
    {
        double d = strtod(tokens[r->tok], NULL), e = get_const_value(t);
        CHECK(memcmp(&d, &e, sizeof d) == 0, "parser: wrong value of a constant");
    }
    else CHECK(strcmp(get_var_name(t), tokens[r->tok]) == 0, "parser: wrong name of a variable");
}
/* parses tokens with the real parser and compares */
static bool rp_check(const ParsingContext *ctx, size_t n, const char **tokens)
{
    Node *tree = NULL;
    size_t err_tok = 999;
    uint64_t live = symx_live_heap();
    ParserError e = parse_tokens(ctx, n, tokens, &tree, &err_tok);
    RNode *r = rp_parse(ctx, n, tokens);
    CHECK((e == PERR_SUCCESS) == (r != NULL), r ? "parser: rejects an expression" : "parser: accepts something that is no expression");
    symx_observe(e);
    if (r)
    {
        rp_same(r, tree, tokens);
        free_tree(tree);
        symx_reach("accepted");
    }
    else
    {
        CHECK(err_tok <= n, "parser: error position outside of the input");
        symx_reach("rejected");
    }
    CHECK(symx_live_heap() == live, "parser: memory is not released");
    return r != NULL;
}
#endif
